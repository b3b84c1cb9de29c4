"""C01: cooperative groups of variables."""
from rvc.vc import *
from rvc.units import unit
from .surr import *
from rvc.builtins_ import Axis
from .find import *
M = 'ego::solver::coego'
LEVEL = 'other'
I = z3.IntVal

def divmod_(k, w):
    return implies(ge(w, 1), band(eq(k, add(mul(w, div(k, w)), mod(k, w))), ge(mod(k, w), 0), lt(mod(k, w), w), implies(ge(k, 0), ge(div(k, w), 0))))
def balanced(v, p, rem): return v.prover.light(list(p.p.pc), eq(rem, 0), [], 1500)
def shuffled(v, t):
    """the permutation behind a value, and its inverse"""
    perm = named(t, 'perm!')[0]; z = fresh('z', IS)
    for f in v.ip.univ:
        try: u = lift(f(z))
        except Exception: continue
        if perm in named(u, 'perm!'): return perm, named(u, 'perminv')[0]
    raise Unsupported('no permutation')

@unit('groups of active variables', [M + '::EgorSolver::get_random_activity'])
def groups(): return groups_(False)
@unit('groups of active variables, more groups than variables', [M + '::EgorSolver::get_random_activity'])
def groups_more(): return groups_(True)
def groups_(more):
    v = V('C01', 'groups'); n, g = v.dim('n'), v.dim('g')
    v.require(gt(g, n) if more else le(g, n))
    s = St('EgorSolver', {'xlimits': v.arr('xl', [n, 2]), 'config': St('ValidEgorConfig', {'coego': St('CoegoConfig', {'n_coop': g})})})
    for p in v.call('get_random_activity', [s, Opq('rng', {})], owner='EgorSolver', mod=M):
        with p:
            a = p.value; G, S = a.dims
            p.ensure('requested number of groups, never more than variables', eq(G, ite(lt(g, n), g, n)))
            r, c = p.ix(G), p.ix(S)
            p.ensure('entries are variables or the out of range marker', band(ge(a.at(r, c), 0), le(a.at(r, c), n)))
            perm, inv = shuffled(v, a.at(r, c)); rem = mod(n, G); q = div(n, G)
            x = p.ix(n); k = inv(x)
            w = S if balanced(v, p, rem) else sub(S, 1); cut = mul(G, w)
            there = band(ge(k, 0), lt(k, n), eq(perm(k), x))
            p.ensure('lemma: place of a variable in the shuffled list', there)
            size = band(eq(w, q), eq(n, add(cut, rem)), ge(w, 1), lt(rem, G), ge(rem, 0))
            p.ensure('lemma: sizes of the groups', size, extra=[divmod_(n, G)])
            p.ensure('lemma: row and column of a place', implies(band(there, lt(k, cut)), band(ge(div(k, w), 0), lt(div(k, w), G), ge(mod(k, w), 0), lt(mod(k, w), w), eq(k, add(mul(div(k, w), w), mod(k, w))))), extra=[size, divmod_(k, w)])
            r0, c0 = p.ix(G), p.ix(S)
            p.ensure('every variable is in a group', implies(band(lt(k, cut), lt(c0, w), eq(k, add(mul(r0, w), c0))), eq(a.at(r0, c0), x)), extra=[size, there])
            p.ensure('every remaining variable is in a group', implies(ge(k, cut), band(gt(S, w), lt(sub(k, cut), G), eq(a.at(sub(k, cut), w), x))), extra=[size, there])
        with p:
            a = p.value; G, S = a.dims; rem = mod(n, G); q = div(n, G); w = S if balanced(v, p, rem) else sub(S, 1); cut = mul(G, w)
            size = band(eq(w, q), eq(n, add(cut, rem)), ge(w, 1), lt(rem, G), ge(rem, 0))
            p.ensure('lemma: sizes of the groups', size, extra=[divmod_(n, G)])
            perm, inv = shuffled(v, a.at(I(0), I(0)))
            r, c = p.ix(G), p.ix(S)
            pos = ite(lt(c, w), add(mul(r, w), c), add(cut, r))     # place of the entry in the shuffled list
            e = a.at(r, c)
            p.ensure('lemma: an entry is a place of the shuffled list', implies(lt(e, n), band(ge(pos, 0), lt(pos, n), eq(e, perm(pos)))), extra=[size, implies(lt(r, G), le(mul(add(r, 1), w), cut))])
            p.ensure('lemma: row bound', implies(lt(r, G), le(mul(add(r, 1), w), cut)), extra=[size])
            p.ensure('a place holds one variable', implies(lt(e, n), eq(inv(e), pos)), extra=[implies(lt(e, n), band(ge(pos, 0), lt(pos, n), eq(e, perm(pos))))])
            r2, c2 = p.ix(G), p.ix(S); pos2 = ite(lt(c2, w), add(mul(r2, w), c2), add(cut, r2))
            far = band(implies(lt(r, r2), ge(mul(r2, w), add(mul(r, w), w))), implies(lt(r2, r), ge(mul(r, w), add(mul(r2, w), w))))
            p.ensure('lemma: rows are apart', far, extra=[size])
            bound = band(le(mul(add(r, 1), w), cut), le(mul(add(r2, 1), w), cut))
            p.ensure('lemma: places are in the table', bound, extra=[size])
            p.ensure('no two entries have the same place', implies(eq(pos, pos2), band(eq(r, r2), eq(c, c2))), extra=[far, bound, ge(w, 1), le(S, add(w, 1))])
    v.vacuity()
    return v

@unit('reading the active variables', [M + '::get_active_x', M + '::EgorSolver::strip'])
def read():
    v = V('C01', 'read'); n, m = v.dim('n'), v.dim('m'); x = v.arr('x', [n], kind='nd'); act = v.arr('act', [m], sort=IS, kind='vec')
    v.forall(lambda i: ge(act.at(i), 0))
    for p in v.call('get_active_x', [Axis(0), x, act], mod=M):
        with p:
            a = p.value; c = a.dims[0]; k, i = p.ix(c), p.ix(m)
            sel, rank = named(a.at(k), 'sel!')[0], None
            w = sel(k)
            p.ensure('only active variables are read', band(ge(w, 0), lt(w, m), lt(act.at(w), n), eq(a.at(k), x.at(act.at(w)))))
            p.ensure('in the order of the group', implies(lt(add(k, 1), c), lt(w, sel(add(k, 1)))))
            rank = named_in(v, sel, 'rank!')
            p.ensure('every active variable is read', implies(lt(act.at(i), n), band(ge(rank(i), 0), lt(rank(i), c), eq(a.at(rank(i)), x.at(act.at(i))))))
    for p in v.call('strip', [act, n], owner='EgorSolver', mod=M):
        with p:
            a = p.value; c = a.dims[0]; k, i = p.ix(c), p.ix(m)
            sel = named(a.at(k), 'sel!')[0]; rank = named_in(v, sel, 'rank!')
            p.ensure('only variables stay in a group', band(lt(a.at(k), n), eq(a.at(k), act.at(sel(k)))))
            p.ensure('the group keeps its order', implies(lt(add(k, 1), c), lt(sel(k), sel(add(k, 1)))))
            p.ensure('every variable of the group stays', implies(lt(act.at(i), n), band(ge(rank(i), 0), lt(rank(i), c), eq(a.at(rank(i)), act.at(i)))))
    v.vacuity()
    return v

@unit('partial tuning of a group', [M + '::EgorSolver::set_partial_theta_tuning', M + '::EgorSolver::strip'])
def partial():
    v = V('C01', 'partial'); t, m = v.dim('t'), v.dim('m'); act = v.arr('act', [m], sort=IS, kind='vec')
    v.forall(lambda i: ge(act.at(i), 0))
    h = z3.Function('h', IS, IS); v.forall(lambda i: ge(h(i), 1))
    init = z3.Function('init', IS, IS, RS); lo, hi = z3.Function('lo', IS, IS, RS), z3.Function('hi', IS, IS, RS); old = z3.Function('old', IS, IS, IS)
    row = lambda f, i, d: Arr([d], lambda k: f(i, k))
    bnd = lambda i: Arr([h(i)], lambda k: Tup([lo(i, k), hi(i, k)]))
    kinds = {'Fixed': lambda i: En('Fixed', [row(init, i, h(i))]), 'Full': lambda i: En('Full', [row(init, i, h(i)), bnd(i)], ['init', 'bounds']),
             'Partial': lambda i: En('Partial', [row(init, i, h(i)), bnd(i), Arr([m], lambda k: old(i, k), 'vec')], ['init', 'bounds', 'active'])}
    for kd, mk in kinds.items():
        T_ = v.cell(Arr([t], mk, 'vec'))
        for p in v.call('set_partial_theta_tuning', [St('EgorSolver', {}), act, T_], owner='EgorSolver', mod=M):
            with p:
                out = p.get(T_); i = p.ix(t); o = out.at(i)
                p.ensure(f'{kd} tuning becomes partial', z3.BoolVal(o.var == 'Partial'))
                I0, B0, A0 = o.get('init'), o.get('bounds'), o.get('active'); k = p.ix(h(i))
                p.ensure(f'{kd}: initial values are kept', band(eq(I0.dims[0], h(i)), eq(I0.at(k), init(i, k))))
                if kd != 'Fixed': p.ensure(f'{kd}: bounds are kept', band(eq(B0.dims[0], h(i)), eq(B0.at(k).es[0], lo(i, k)), eq(B0.at(k).es[1], hi(i, k))))
                c = A0.dims[0]; l, q = p.ix(c), p.ix(m); a = A0.at(l)
                p.ensure(f'{kd}: active components are components of the model in the group', band(ge(a, 0), lt(a, h(i)), mkred('or', m, lambda j: eq(act.at(j), a))))
    v.vacuity()
    return v

@unit('writing the active variables', [M + '::set_active_x'])
def write():
    v = V('C01', 'write'); n, m, k = v.dim('n'), v.dim('m'), v.dim('k'); x = v.arr('x', [n], kind='vec'); act = v.arr('act', [m], sort=IS, kind='vec'); val = v.arr('val', [k], kind='vec')
    v.require(le(k, m))
    v.forall(lambda i: implies(band(ge(i, 0), lt(i, k)), band(ge(act.at(i), 0), lt(act.at(i), n))))
    X = v.cell(x)
    for p in v.call('set_active_x', [X, act, val], mod=M):
        with p:
            y = p.get(X); j = p.ix(n)
            p.ensure('other coordinates keep their values', implies(bnot(mkred('or', k, lambda i: eq(act.at(i), j))), eq(y.at(j), x.at(j))))
        with p:
            y = p.get(X); i = p.ix(k)
            later = mkred('or', k, lambda l: band(gt(l, i), eq(act.at(l), act.at(i))))
            p.ensure('active coordinates take the given values in order', implies(bnot(later), eq(y.at(act.at(i)), val.at(i))))
    v.vacuity()
    return v

@unit('every variable active', [M + '::EgorSolver::full_activity'])
def full():
    v = V('C01', 'full'); n = v.dim('n')
    s = St('EgorSolver', {'xlimits': v.arr('xl', [n, 2])})
    for p in v.call('full_activity', [s], owner='EgorSolver', mod=M):
        with p:
            a = p.value; j = p.ix(n)
            p.ensure('one group holding every variable in order', band(eq(a.dims[0], I(1)), eq(a.dims[1], n), eq(a.at(I(0), j), j)))
    v.vacuity()
    return v
