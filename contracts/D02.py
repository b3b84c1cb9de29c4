"""D02: Latin hypercube designs keep one point per stratum in every dimension."""
from rvc.vc import *
from rvc.units import unit
from .D01 import RNG
I, R = z3.IntVal, z3.RealVal
LEVEL = 'other'
M = 'doe::lhs'

def strata(name, centred):
    """point i lies in slice q(i) of the range, and q maps the points one to one to the slices"""
    v = V('D02', name); ns, nx = v.dim('ns', 1), v.dim('nx'); lim = v.arr('lim', [nx, I(2)])
    me = St('Lhs', {'xlimits': lim, 'rng': RNG(), 'kind': Opq('kind')})
    for p in v.call(name, [me, ns], owner='Lhs', mod=M):
        with p:
            r = deref(p.value); i, k, j = p.ix(ns), p.ix(ns), p.ix(nx); n = toreal(ns)
            p.ensure('one row per point, one column per variable', band(eq(r.dims[0], ns), eq(r.dims[1], nx)))
            def slot(i):
                q = {}; st = [canon(lift(deref(r.at(i, j))))]
                while st:
                    u = st.pop()
                    if z3.is_app(u) and u.decl().kind() == z3.Z3_OP_UNINTERPRETED and u.num_args() and u.decl().name().startswith(('perm@', 'composed!')) and depends(u.arg(u.num_args() - 1), i): q[u.get_id()] = u; continue
                    st.extend(u.children())
                if len(q) != 1: raise Unsupported('slice of a point')
                return list(q.values())[0]
            a, b = slot(i), slot(k); x = r.at(i, j); t = toreal(a)
            p.ensure('each point is assigned one of the slices', band(ge(a, 0), lt(a, ns)))
            p.ensure('two points are assigned different slices', implies(bnot(eq(i, k)), bnot(eq(a, b))))
            if centred: p.ensure('coordinate at the middle of its slice', eq(mul(n, x), add(t, z3.Q(1, 2))), extra=[ge(n, R(1))])
            else: p.ensure('coordinate within its slice', band(ge(mul(n, x), t), lt(mul(n, x), add(t, R(1)))), extra=[ge(n, R(1))])
    v.vacuity()
    return v
unit('classic', [M + '::Lhs::_classic_lhs'])(lambda: strata('_classic_lhs', False))
unit('centred', [M + '::Lhs::_centered_lhs'])(lambda: strata('_centered_lhs', True))

DES = {False: z3.Function('classicdesign', IS, IS, IS, RS), True: z3.Function('centreddesign', IS, IS, IS, RS)}
def maximin(centred):
    """the maximin kinds return one of the generated classic (centred) designs"""
    v = V('D02', 'maximin'); ns, nx = v.dim('ns', 2), v.dim('nx'); lim = v.arr('lim', [nx, I(2)]); iters = v.int('iters'); v.require(ge(iters, 1))
    me = St('Lhs', {'xlimits': lim, 'rng': RNG(), 'kind': Opq('kind')})
    def gen(c):
        def f(ip, a):
            g, _ = ip.skfun('design', [], IS)
            return Arr([ns, nx], lambda i, j: DES[c](lift(g()), lift(i), lift(j)))
        return f
    v.ip.summaries['_classic_lhs'] = gen(False); v.ip.summaries['_centered_lhs'] = gen(True)
    v.ip.summaries['pdist'] = lambda ip, a: Arr([v.dim('pairs')], lambda k: z3.Function('dist', IS, RS)(lift(k)))
    for p in v.call('_maximin_lhs', [me, ns, z3.BoolVal(centred), iters], owner='Lhs', mod=M):
        with p:
            r = deref(p.value); i, j, k, l = p.ix(ns), p.ix(nx), p.ix(ns), p.ix(nx); D = DES[centred]
            p.ensure('one row per point, one column per variable', band(eq(r.dims[0], ns), eq(r.dims[1], nx)))
            gs = {t.arg(0).get_id(): t.arg(0) for t in T.apps([canon(lift(deref(r.at(i, j))))], {D.name()}).get(D.name(), [])}
            if not gs: raise Unsupported('generated design')
            p.ensure('one of the generated designs, unchanged', bor(*[band(eq(r.at(i, j), D(g, i, j)), eq(r.at(k, l), D(g, k, l))) for g in gs.values()]))
    v.vacuity()
    return v
unit('maximin kind', [M + '::Lhs::_maximin_lhs'])(lambda: maximin(False))
unit('centred maximin kind', [M + '::Lhs::_maximin_lhs'])(lambda: maximin(True))

@unit('exchange of two coordinates', [M + '::Lhs::_phip_swap'])
def swap():
    """a step of the optimised kind exchanges the coordinates of two points along one variable"""
    v = V('D02', 'swap'); ns, nx = v.dim('ns', 2), v.dim('nx'); k = v.int('k'); v.require(band(ge(k, 0), lt(k, nx)))
    X = v.arr('x', [ns, nx]); c = v.cell(X)
    me = St('Lhs', {'xlimits': v.arr('lim', [nx, I(2)]), 'rng': RNG(), 'kind': Opq('kind')})
    def in_rows(ip, base, cur, hyp=False):
        if not (is_scalar(cur) and lift(cur).sort() == IS): return None
        return band(ge(cur, 0), lt(cur, ns))
    v.ip.invariants.append(in_rows)
    v.ip.summaries['cdist'] = lambda ip, a: Arr([deref(a[0]).dims[0], deref(a[1]).dims[0]], lambda i, j: z3.Function('dist', IS, RS)(lift(j)))
    for p in v.call('_phip_swap', [me, c, k, v.real('phip'), v.real('p'), v.cell(Rng())], owner='Lhs', mod=M):
        with p:
            r = deref(p.get(c)); i, j = p.ix(ns), p.ix(nx)
            t = canon(lift(deref(r.at(i, j))))
            def written(k):
                """rows of the two points exchanged"""
                out = {}
                for a in T.apps([t], {'x'}).get('x', []):
                    if not a.arg(0).eq(i): out[a.arg(0).get_id()] = a.arg(0)
                return list(out.values())
            ab = written(k)
            if len(ab) != 2: raise Unsupported('exchanged points')
            a, b = ab
            p.ensure('two different points of the design', band(bnot(eq(a, b)), ge(a, 0), lt(a, ns), ge(b, 0), lt(b, ns)))
            p.ensure('their coordinates along the variable are exchanged, the rest unchanged', eq(t, ite(bnot(eq(j, k)), X.at(i, j), ite(eq(i, a), X.at(b, k), ite(eq(i, b), X.at(a, k), X.at(i, j))))))
    v.vacuity()
    return v

def dispatch(kind, small):
    """each kind delegates to its construction, with the requested number of points"""
    v = V('D02', 'dispatch'); ns, nx = v.dim('ns', 0), v.dim('nx'); lim = v.arr('lim', [nx, I(2)])
    v.require(lt(ns, 2) if small else ge(ns, 2))
    names = ['classic', 'centred', 'maximin', 'centredmaximin', 'optimised']; FN = {k: z3.Function('design_' + k, IS, IS, RS) for k in names}
    D = lambda k: Arr([ns, nx], lambda i, j: FN[k](lift(i), lift(j)))
    def count(t):
        if not z3.simplify(lift(deref(t)) - ns).eq(I(0)): raise Unsupported('another number of points')
    def one(k):
        def f(ip, a): count(a[1]); return D(k)
        return f
    def mm(ip, a):
        count(a[1]); c = z3.simplify(lift(deref(a[2])))
        return D('centredmaximin') if z3.is_true(c) else D('maximin') if z3.is_false(c) else D('?')
    def ese(ip, a):
        from rvc.loops import same_value
        if not same_value(deref(a[1]), D('classic')): raise Unsupported('optimisation of another design')
        return D('optimised')
    S = v.ip.summaries; S['_classic_lhs'], S['_centered_lhs'], S['_maximin_lhs'], S['_maximin_ese'] = one('classic'), one('centred'), mm, ese
    want = {'Classic': 'classic', 'Centered': 'centred', 'Maximin': 'classic' if small else 'maximin', 'CenteredMaximin': 'centred' if small else 'centredmaximin', 'Optimized': 'classic' if small else 'optimised'}[kind]
    me = St('Lhs', {'xlimits': lim, 'rng': RNG(), 'kind': En(kind)})
    for p in v.call('normalized_sample', [me, ns], owner='Lhs', trait='SamplingMethod', mod=M):
        with p:
            r = deref(p.value); i, j = p.ix(ns), p.ix(nx)
            p.ensure('the requested number of points', band(eq(r.dims[0], ns), eq(r.dims[1], nx)))
            p.ensure('design of the requested kind', eq(r.at(i, j), FN[want](i, j)))
    v.vacuity()
    return v
for _k in ('Classic', 'Centered', 'Maximin', 'CenteredMaximin', 'Optimized'):
    for _s in (True, False):
        unit(f'{_k} kind, ' + ('at most one point' if _s else 'several points'), [M + '::Lhs::normalized_sample'])(lambda k=_k, s=_s: dispatch(k, s))
