"""Shared specification terms."""
from rvc.vc import *

KERN = {'SquaredExponentialCorr': 'se', 'AbsoluteExponentialCorr': 'ae', 'Matern32Corr': 'm32', 'Matern52Corr': 'm52'}
Z = z3.RealVal

def inputs(v, n='n'):
    n, nx, h = v.dim(n), v.dim('nx'), v.dim('h')
    return n, nx, h, v.arr('d', [n, nx]), v.arr('theta', [h]), v.arr('w', [nx, h])

def tw(th, w, j, k): return mul(th.at(k), absr(w.at(j, k)))

def closed(kind, d, i, th, w, nx, h):
    """documented closed form of the correlation for row i of the differences"""
    S = lambda f: mkred('sum', nx, lambda j: mkred('sum', h, lambda k: f(j, k)))
    P = lambda f: mkred('prod', nx, lambda j: mkred('prod', h, lambda k: f(j, k)))
    v = lambda j, k: mul(tw(th, w, j, k), absr(d.at(i, j)))
    if kind == 'se':
        return exp(mul(z3.Q(-1, 2), S(lambda j, k: mul(mul(mul(th.at(k), w.at(j, k)), mul(th.at(k), w.at(j, k))), mul(d.at(i, j), d.at(i, j))))))
    if kind == 'ae': return exp(neg(S(v)))
    c = sqrt(Z(3)) if kind == 'm32' else sqrt(Z(5))
    f = (lambda j, k: add(1, mul(c, v(j, k)))) if kind == 'm32' else (lambda j, k: add(add(Z(1), mul(c, v(j, k))), mul(z3.Q(5, 3), mul(v(j, k), v(j, k)))))
    return mul(P(f), exp(neg(mul(c, S(v)))))

Z0 = z3.IntVal(0)
def decl_deps(t):
    from rvc.loops import decl_names
    return decl_names(t)

def row_only(t, fname, i):
    """every read of fname in t has row index i (syntactic frame condition)"""
    ok = True; seen = set(); st = [lift(t)]
    while st:
        u = st.pop(); k = u.get_id()
        if k in seen: continue
        seen.add(k)
        if z3.is_app(u):
            if u.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                if u.decl().name() == fname and not u.arg(0).eq(i) and not isnum(z3.simplify(u.arg(0) - i), 0): ok = False
                r = T.REDS.get(u.decl().name()) if u.num_args() == 0 else None
                if r: st += [r.body, r.n]
            st.extend(u.children())
    return z3.BoolVal(ok)

def rng(i, n): return [ge(i, 0), lt(i, n)]

def split_prod(g, t):
    """prod f = f(t) * prod (f without t), for 0 <= t < n, wherever both products occur in g"""
    rs = [r for r in T.reds_of(g) if r.kind == 'prod']
    for r in rs:
        for q in rs:
            if q is r or not q.n.eq(r.n) or not z3.is_app(q.body) or q.body.decl().kind() != z3.Z3_OP_ITE: continue
            if isnum(q.body.arg(1), 1) and subst(q.body.arg(2), [(q.bv, r.bv)]).eq(r.body) and z3.is_true(z3.simplify(subst(q.body.arg(0), [(q.bv, t)]))):
                g = z3.substitute(g, (r.sym, mul(q.sym, T.red_at(r, t))))
    return g
