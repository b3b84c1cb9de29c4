"""U01: hyperparameter bounds, exploration weights."""
from rvc.vc import *
from rvc.units import unit
from rvc import terms as T
from rvc.loops import Univ2, decl_names
I, R = z3.IntVal, z3.RealVal
LEVEL = 'other'
B_ = 'ego::utils::bounds'

def spec(v):
    flags = {}
    def contains(ip, me, a):
        f = deref(a[0]); return flags.setdefault(f.name, v.bool('has_' + f.name))
    return Opq('spec', methods={'contains': contains})

def bounds(mode):
    v = V('U01', 'bounds_' + mode); n = v.dim('n'); dim = v.int('dim'); v.require(ge(dim, 1))
    lo, hi = v.arr('lo', [n]), v.arr('hi', [n])
    v.forall(lambda k: implies(band(ge(k, 0), lt(k, n)), band(gt(lo.at(k), R(0)), le(lo.at(k), hi.at(k)))))
    given = Arr([n], lambda k: Tup([lo.at(k), hi.at(k)]), 'arr'); init, act = v.arr('init', [n]), v.arr('act', [v.dim('na', 0)], sort=IS, kind='vec')
    tun = {'Fixed': lambda: En('Fixed', [init]), 'Full': lambda: En('Full', [init, given], ['init', 'bounds']), 'Partial': lambda: En('Partial', [init, given, act], ['init', 'bounds', 'active'])}[mode]()
    for p in v.call('theta_bounds', [tun, dim, spec(v)], mod=B_):
        with p:
            r = deref(p.value); k = p.ix(r.dims[0]); e = deref(r.at(k)).es
            p.ensure('bounds are positive', gt(e[0], R(0)))
            p.ensure('bounds are ordered', le(e[0], e[1]))
            p.ensure('one pair of bounds or one per given pair', bor(eq(r.dims[0], 1), eq(r.dims[0], n)) if mode != 'Fixed' else eq(r.dims[0], 1))
            if mode != 'Fixed': p.ensure('several given bounds are kept', implies(gt(n, 1), band(eq(r.dims[0], n), eq(e[0], lo.at(k)), eq(e[1], hi.at(k)))))
    v.vacuity()
    return v
for _m in ('Fixed', 'Full', 'Partial'): unit(f'hyperparameter bounds, {_m.lower()} tuning', [B_ + '::theta_bounds', B_ + '::special_bounds'])(lambda m=_m: bounds(m))

@unit('exploration weights', ['ego::utils::portfolio::logspace'])
def logspace():
    v = V('U01', 'logspace'); a, b, n = v.real('first'), v.real('last'), v.int('num')
    v.require(band(gt(a, R(0)), gt(b, R(0)), ge(n, 2)))
    for p in v.call('logspace', [a, b, n], mod='ego::utils::portfolio'):
        with p:
            r = deref(p.value); i = p.ix(n); L = lambda k: log10(r.at(k))
            p.ensure('the requested number of weights', eq(r.dims[0], n))
            p.ensure('first weight', eq(r.at(I(0)), a)); p.ensure('last weight', eq(r.at(sub(n, 1)), b))
            t = div(toreal(i), toreal(sub(n, 1)))
            p.ensure('evenly spread in logarithm', eq(L(i), add(log10(a), mul(t, sub(log10(b), log10(a))))))
            p.ensure('weights are positive', gt(r.at(i), R(0)))
    v.vacuity()
    return v

def locally(v, p, name, goal, at, extra):
    """proves goal from the path condition and the lookup facts (sort, growing lists) at the positions read; reductions are abstracted"""
    univ = [f for f in v.ip.univ if not isinstance(f, Univ2)]; seen = {}; todo = list(at)
    while todo:
        a = todo.pop(); k = a.sexpr()
        if k in seen: continue
        seen[k] = a
    fs = [lift(f(a)) for f in univ for a in seen.values()]
    ab = {}
    def abstract(t):
        t = canon(lift(t))
        for s in decl_names(t):
            if s in T.REDS: ab.setdefault(s, (T.REDS[s].sym, fresh('red', T.REDS[s].sym.sort())))
        return z3.substitute(t, *ab.values()) if ab else t
    v.ip.weak = True        # an abstraction: what it does not prove is unknown, not refuted
    import time; t0 = time.time()
    hyp = [abstract(f) for f in list(p.p.pc) + list(extra) + fs]
    for h in (hyp[:-len(fs)] if fs else hyp, hyp):
        if check_sat(h + [bnot(abstract(goal))], 8000)[0] == z3.unsat:
            v.results.append((name, 'proved', 'z3', time.time() - t0, '')); return
    v.ensure(name, abstract(goal), hyp, [])

def start_points(limited):
    """midpoints of two training points are kept or not: each lies between its two training points"""
    v = V('U01', 'start_points' + limited); n, d = v.dim('n'), v.dim('d'); x = v.arr('x', [n, d]); lo, hi = v.arr('lo', [d]), v.arr('hi', [d])
    v.forall(lambda k: implies(band(ge(k, 0), lt(k, d)), lt(lo.at(k), hi.at(k))))
    v.assume('training points lie in the domain')
    def inside(t, k):
        return [implies(band(ge(a.arg(0), 0), lt(a.arg(0), n), eq(a.arg(1), k)), band(le(lo.at(k), a), le(a, hi.at(k)))) for a in T.apps([lift(t)], {'x'}).get('x', [])]
    for p in v.call('start_points', [x, lo, hi, SOME(v.int('n_max')) if limited else NONE()], mod='ego::utils::start_points'):
        with p:
            r = deref(p.value); i, k = p.ix(r.dims[0]), p.ix(d)
            p.ensure('one coordinate per variable', eq(r.dims[1], d))
            t = r.at(i, k); ct = canon(lift(t)); names = {s for s in decl_names(ct) if s.startswith(('seg!', 'sorted!'))}
            at = [i, k] + [b for l in T.apps([ct], names).values() for q in l for b in q.children()]
            locally(v, p, 'starting points lie in the domain', band(ge(t, lo.at(k)), le(t, hi.at(k))), at, inside(ct, k))
    v.vacuity()
    return v
unit('starting points', ['ego::utils::start_points::start_points'])(lambda: start_points(''))     # with a maximal number (the same list cut short) the early exits are too many to explore: bounded replay
