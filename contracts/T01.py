"""T01: trust-region steps."""
from rvc.vc import *
from rvc.units import unit
from .ego import *
LEVEL = 'other'
M = 'ego::solver::trego'

def config(v):
    g, b = v.real('gamma'), v.real('beta'); v.require(gt(g, R(1))); v.require(band(gt(b, R(0)), lt(b, R(1))))
    nl = v.int('n_local_steps'); v.require(ge(nl, 0))
    d = (v.real('d_lo'), v.real('d_up'))
    for t in d: v.require(ge(t, R(0)))
    return St('TregoConfig', {'activated': z3.BoolVal(True), 'n_local_steps': nl, 'd': Tup(list(d)), 'alpha': v.real('alpha'), 'beta': b, 'gamma': g, 'sigma0': v.real('sigma0')}), g, b, nl, d

@unit('alternation and radius', ['ego::solver::egor_solver::EgorSolver::trego_iteration'])
def rule():
    v = V('T01', 'rule'); s = EgoState(v); cfg, g, b, nl, d = config(v)
    got = {}
    def step(kind):
        def f(ip, a):
            sts = [deref(x) for x in a if isinstance(deref(x), St) and deref(x).name == 'EgorState']
            st = sts[0]
            out = St('EgorState', dict(st.f)); out.f['prev_step_ego'] = v.bool('after')        # whatever the step leaves there
            out.f['param'] = SOME(Tup([z3.BoolVal(kind == 'global'), st.f['sigma'], st.f['best_index'], st.f['prev_best_index'], st.f['data']]))
            return OK(Tup([out, NONE()])) if kind == 'global' else out
        return f
    v.ip.summaries['ego_iteration'] = step('global'); v.ip.summaries['trego_step'] = step('local')
    v.ip.summaries['refresh_surrogates'] = lambda ip, a: Opq('models'); v.ip.summaries['refresh_infill_data'] = lambda ip, a: Opq('infill data')
    me = St('EgorSolver', {'config': St('ValidEgorConfig', {'trego': cfg})})
    y0 = lambda i: s.y.at(i, I(0))
    ok = lt(y0(s.best), sub(y0(s.prev), mul(s.sigma, s.sigma)))
    first = eq(s.it, 0)
    for p in v.call('trego_iteration', [me, Opq('problem'), s.st], owner='EgorSolver', mod='ego::solver::egor_solver'):
        with p:
            st = deref(deref(deref(p.value).ps[0]).es[0]); isg, sig, bi, pb, data = deref(st.f['param'].ps[0]).es
            glob = bor(band(ok, s.ego), eq(mod(s.it, add(nl, 1)), 0))
            p.ensure('global phases follow the configured alternation, a successful global step being followed by another', eq(isg, glob))
            p.ensure('the first iteration leaves the radius unchanged', implies(first, eq(sig, s.sigma)))
            p.ensure('a success multiplies the radius by the enlarging factor', implies(band(bnot(first), ok), eq(sig, mul(s.sigma, g))))
            p.ensure('a failed local step multiplies it by the shrinking factor', implies(band(bnot(first), bnot(ok), bnot(s.ego)), eq(sig, mul(s.sigma, b))))
            p.ensure('a failed global step leaves it unchanged', implies(band(bnot(first), bnot(ok), s.ego), eq(sig, s.sigma)))
            p.ensure('the kind of step is remembered', eq(st.f['prev_step_ego'], isg))
            p.ensure('best points of this and the previous step reach the next step unchanged', band(eq(deref(bi).ps[0], s.best), eq(deref(pb).ps[0], s.prev)))
    v.vacuity()
    return v

@unit('local starts', [M + '::LocalLhsMultiStarter::multistart'])
def starts():
    """the sampled box is the intersection of the domain and the trust region, for the active variables; samples lie in their box (property D01)"""
    v = V('T01', 'starts'); nx, na = v.dim('nx'), v.dim('na'); ns = v.dim('ns')
    xl, o = v.arr('xl', [nx, I(2)]), v.arr('o', [nx]); act = v.arr('act', [na], IS)
    v.forall(lambda i: implies(band(ge(i, 0), lt(i, na)), band(ge(act.at(i), 0), lt(act.at(i), nx))))
    lo, up = v.real('d_lo'), v.real('d_up'); v.require(band(ge(lo, R(0)), ge(up, R(0))))
    me = St('LocalLhsMultiStarter', {'xlimits': xl, 'origin': o, 'local_bounds': Tup([lo, up]), 'rng': Opq('rng')})
    got = []; z = v.arr('z', [ns, na])
    def new(ip, args, e):
        got.append(deref(args[0]))
        def me_(ip, m, a): return m
        def sample(ip, m, a):
            k = lift(deref(a[0]))
            if not k.eq(ns): raise Unsupported('another number of starts')
            return z
        return Opq('lhs', methods={'kind': me_, 'with_rng': me_, 'sample': sample})
    v.ip.specs['Lhs::new'] = new
    for p in v.call('multistart', [v.cell(me), ns, act], owner='LocalLhsMultiStarter', mod=M):
        with p:
            a = got[-1]; k = p.ix(na); j = act.at(k)
            p.ensure('one interval per active variable', band(eq(a.dims[0], na), eq(a.dims[1], 2)))
            p.ensure('lower bound in the domain and within the configured distance', eq(a.at(k, I(0)), maxr(xl.at(j, I(0)), sub(o.at(j), lo))))
            p.ensure('upper bound in the domain and within the configured distance', eq(a.at(k, I(1)), minr(xl.at(j, I(1)), add(o.at(j), up))))
            r = p.ix(ns)
            p.ensure('the starts are the sampled points', eq(p.value.at(r, k), z.at(r, k)))
    v.vacuity()
    return v

@unit('local step', [M + '::EgorSolver::trego_step'])
def local():
    """callee contracts: the infill optimisation starts from the given starter (U01), new rows are added by update_data (H01), the best row by the incremental selection (B01)"""
    v = V('T01', 'local'); s = EgoState(v); cfg, g, b, nl, d = config(v)
    m, na = v.int('m'), v.int('na'); v.require(band(ge(m, 0), le(m, 1), eq(na, m)))
    X2, Y2, C2 = v.arr('x2', [add(s.n, m), s.nx]), v.arr('y2', [add(s.n, m), s.ny]), v.arr('c2', [add(s.n, m), s.nc])
    nb = v.int('new_best'); v.require(band(ge(nb, 0), lt(nb, add(s.n, m))))
    got = {}
    xo = v.arr('x_opt', [s.nx])
    def opt(ip, a):
        got['ms'] = deref(a[2]); got['cur'] = deref(a[3])
        return Tup([v.real('infill_obj'), xo])
    v.ip.summaries['optimize_infill_criterion'] = opt
    v.ip.summaries['full_activity'] = lambda ip, a: Opq('activity')
    yn, cn = v.arr('y_new', [I(1), s.ny]), v.arr('c_new', [I(1), s.nc])
    def at(nm, r):
        def f(ip, a):
            q = deref(a[2]); got[nm] = q
            return r
        return f
    v.ip.summaries['eval_obj'] = at('evx', yn); v.ip.summaries['eval_problem_fcstrs'] = at('evc', cn)
    def upd(ip, a):
        got['upd'] = [deref(x) for x in a]
        for pl, t in zip(a[:3], (X2, Y2, C2)): pl.set(t)
        return Arr([m], lambda i: I(0))
    v.ip.summaries['update_data'] = upd
    def fb(ip, a):
        got['fb'] = [deref(x) for x in a]
        return nb
    v.ip.summaries['find_best_result_index_from'] = fb
    v.ip.summaries['is_feasible'] = lambda ip, a: v.bool('new_feasible')
    pb = Opq('pb', methods={'fn_constraints': lambda ip, me, a: Opq('fcstrs')})
    v.ip.methods_of = {('Problem', 'take_problem'): lambda ip, me, a: SOME(pb)}
    xl = v.arr('xl', [s.nx, I(2)])
    me = St('EgorSolver', {'config': St('ValidEgorConfig', {'trego': cfg, 'cstr_infill': v.bool('cstr_infill'), 'infill_criterion': Opq('criterion', methods={'name': lambda ip, me, a: Opq('str')})}), 'xlimits': xl})
    models = Opq('models', methods={'split_first': lambda ip, me, a: SOME(Tup([Opq('obj_model'), Opq('cstr_models')]))})
    for p in v.call('trego_step', [me, v.cell(St('Problem', {'problem': SOME(pb)})), s.st, models, Opq('infill_data')], owner='EgorSolver', mod=M):
        with p:
            st = deref(p.value); ms = got['ms']; j = p.ix(s.nx); k = p.ix(I(2))
            p.ensure('starts are drawn around the current best point', eq(ms.f['origin'].at(j), s.x.at(s.best, j)))
            p.ensure('starts are drawn in the domain of the run', eq(ms.f['xlimits'].at(j, k), xl.at(j, k)))
            lb = deref(ms.f['local_bounds']).es
            p.ensure('within the configured distances', band(eq(lb[0], d[0]), eq(lb[1], d[1])))
            p.ensure('the current best point is the reference of the infill step', eq(deref(deref(got['cur']).es[0]).at(j), s.x.at(s.best, j)))
            p.ensure('the optimised point is evaluated', band(eq(got['evx'].at(I(0), j), xo.at(j)), eq(got['evc'].at(I(0), j), xo.at(j))))
            p.ensure('the evaluated point is the one added', eq(got['upd'][3].at(I(0), j), xo.at(j)))
            jy, jc = p.ix(s.ny), p.ix(s.nc)
            p.ensure('with its objective', eq(got['upd'][4].at(I(0), jy), yn.at(I(0), jy)))
            with p: p.ensure('with its constraint values', eq(got['upd'][5].at(I(0), jc), cn.at(I(0), jc)))
            p.ensure('selection starts from the current best and the rows added', band(eq(got['fb'][0], s.best), eq(got['fb'][1], sub(add(s.n, m), 1))))
            p.ensure('the selected row becomes the best point', eq(deref(st.f['best_index']).ps[0], nb))
            p.ensure('the best point of the previous step is remembered', eq(deref(st.f['prev_best_index']).ps[0], s.best))
            dt = [deref(t) for t in deref(deref(st.f['data']).ps[0]).es]
            r = p.ix(add(s.n, m))
            p.ensure('the extended history is kept', band(eq(dt[0].at(r, j), X2.at(r, j)), eq(dt[1].at(r, jy), Y2.at(r, jy))))
            p.ensure('radius, counters and budget unchanged', band(eq(st.f['sigma'], s.sigma), eq(st.f['iter'], s.it), eq(st.f['max_iters'], s.maxit)))
            p.ensure('added points are counted', eq(st.f['added'], add(s.added, m)))
            p.ensure('feasibility is never lost', implies(s.feas, st.f['feasibility']))
    v.vacuity()
    return v
