"""S01: bookkeeping of a run."""
from rvc.vc import *
from rvc.units import unit
from .ego import *
LEVEL = 'other'

def call(v, s, name, *args):
    return v.call(name, [v.cell(s.st)] + list(args), owner='EgorState', mod=MS)

@unit('reported optimum', [MS + '::EgorState::update', MS + '::EgorState::get_best_param', MS + '::EgorState::get_full_best_cost', MS + '::EgorState::is_best'])
def update():
    """after every step the reported optimum is the selected row of the history, with the iteration of the last improvement"""
    v = V('S01', 'update'); s = EgoState(v)
    bp, bc = v.arr('old_best_param', [s.nx]), v.arr('old_best_cost', [s.ny])
    s.st.f['best_param'], s.st.f['best_cost'] = SOME(bp), SOME(bc)
    S = v.cell(s.st); nm = MS
    for p in v.call('update', [S], owner='EgorState', mod=MS):
        with p:
            t = p.get(S); j, k = p.ix(s.nx), p.ix(s.ny)
            p.ensure('the reported optimum is the selected row', eq(deref(deref(t.f['best_param']).ps[0]).at(j), s.x.at(s.best, j)))
            p.ensure('with its recorded value', eq(deref(deref(t.f['best_cost']).ps[0]).at(k), s.y.at(s.best, k)))
            p.ensure('the previous optimum is remembered', band(eq(deref(deref(t.f['prev_best_param']).ps[0]).at(j), bp.at(j)), eq(deref(deref(t.f['prev_best_cost']).ps[0]).at(k), bc.at(k))))
            imp = band(ge(s.best, s.doe), bnot(eq(s.best, s.prev)))
            p.ensure('an improvement is recorded at its iteration', implies(imp, eq(t.f['last_best_iter'], add(s.it, 1))))
            p.ensure('no improvement leaves it', implies(bnot(imp), eq(t.f['last_best_iter'], s.lbi)))
            p.ensure('history, indices and budget unchanged', band(eq(deref(t.f['best_index']).ps[0], s.best), eq(deref(t.f['prev_best_index']).ps[0], s.prev), eq(t.f['iter'], s.it), eq(t.f['max_iters'], s.maxit), eq(t.f['added'], s.added)))
    for p in v.call('is_best', [v.cell(s.st)], owner='EgorState', mod=MS):
        with p: p.ensure('a new best is one found at this iteration', eq(p.value, eq(s.lbi, add(s.it, 1))))
    v.vacuity()
    return v

@unit('reported values', [MS + '::EgorState::' + f for f in ('get_cost', 'get_best_cost', 'get_target_cost', 'get_iter', 'get_max_iters', 'get_last_best_iter', 'increment_iter', 'extend_max_iters', 'max_iters', 'target_cost')])
def getters():
    v = V('S01', 'getters'); s = EgoState(v)
    c, bc = v.arr('cost', [s.ny]), v.arr('best_cost', [s.ny]); s.st.f['cost'], s.st.f['best_cost'] = SOME(c), SOME(bc)
    for nm, want in (('get_cost', c.at(I(0))), ('get_best_cost', bc.at(I(0))), ('get_target_cost', s.target), ('get_iter', s.it), ('get_max_iters', s.maxit), ('get_last_best_iter', s.lbi)):
        for p in v.call(nm, [v.cell(s.st)], owner='EgorState', mod=MS):
            with p: p.ensure(nm, eq(p.value, want))
    S = v.cell(s.st)
    for p in v.call('increment_iter', [S], owner='EgorState', mod=MS):
        with p: p.ensure('iterations are counted one by one', eq(p.get(S).f['iter'], add(s.it, 1)))
    e = v.int('ext'); v.require(ge(e, 0))
    for p in v.call('extend_max_iters', [S, e], owner='EgorState', mod=MS):
        with p: p.ensure('the budget is extended by the requested amount', eq(p.get(S).f['max_iters'], add(s.maxit, e)))
    for p in v.call('max_iters', [s.st, e], owner='EgorState', mod=MS):
        with p: p.ensure('the budget is the given one', eq(deref(p.value).f['max_iters'], e))
    t = v.real('t')
    for p in v.call('target_cost', [s.st, t], owner='EgorState', mod=MS):
        with p: p.ensure('the target is the given one', eq(deref(p.value).f['target_cost'], t))
    v.vacuity()
    return v

@unit('outcome of a global step', ['ego::solver::egor_solver::EgorSolver::ego_iteration'])
def iteration():
    """a step without any new point ends the run as converged with its state, any other one continues with the state of the step"""
    v = V('S01', 'iteration'); s = EgoState(v); out = EgoState(v); out.st.f['sigma'] = v.real('other')
    me = St('EgorSolver', {'config': Opq('config')})
    for kind, res in (('ok', OK(out.st)), ('none', ERR(En('NoMorePointToAddError', [out.st])))):
        v.ip.summaries['ego_step'] = lambda ip, a, res=res: res
        for p in v.call('ego_iteration', [me, Opq('problem'), s.st], owner='EgorSolver', mod='ego::solver::egor_solver'):
            with p:
                r = deref(p.value); t = deref(deref(r.ps[0]).es[0])
                p.ensure('the run goes on with the state of the step', band(z3.BoolVal(r.var == 'Ok'), eq(t.f['sigma'], out.st.f['sigma'])))
                ts = deref(t.f['termination_status'])
                p.ensure('it ends only when no point could be added', z3.BoolVal(isinstance(ts, En) and ts.var == 'Terminated' and deref(ts.ps[0]).var == 'SolverConverged') if kind == 'none' else z3.BoolVal(isinstance(ts, Opq)))
    v.vacuity()
    return v


@unit('optimisation step', ['ego::solver::solver_impl::EgorSolver::ego_step'])
def step():
    """whatever the number of retries; callee contracts: candidates of any kind, update_data (H01), incremental selection (B01), feasibility test"""
    v = V('S01', 'step'); s = EgoState(v)
    s.st.f.update({'clusterings': SOME(Opq('clusterings')), 'theta_inits': SOME(Opq('theta_inits')), 'no_point_added_retries': v.int('retries')})
    last = {}
    v.ip.summaries['have_to_recluster'] = lambda ip, a: fresh('recluster', z3.BoolSort())
    def nx(ip, a):
        m = fresh('m', IS); ip.assume(band(ge(m, 1), lt(m, I(2 ** 31))))
        fn = lambda nm, w: Arr([m, w], (lambda f: lambda i, j: f(i, j))(fresh_fun(nm, [IS, IS], RS)))
        return Tup([fn('xd', s.nx), fn('yd', s.ny), fn('cd', s.nc), fresh('infill', RS), Opq('infill_data')])
    v.ip.summaries['select_next_points'] = nx
    def upd(ip, a):
        old, new = [deref(t) for t in a[:3]], [deref(t) for t in a[3:]]
        na = fresh('na', IS); ip.assume(band(ge(na, 0), le(na, new[0].dims[0])))
        g = fresh_fun('ai', [IS], IS); M_ = new[0].dims[0]; ai = lambda i: ite(band(ge(g(i), 0), lt(g(i), M_)), g(i), I(0))
        n = old[0].dims[0]
        for pl, o, c in zip(a[:3], old, new):
            pl.set(Arr([add(n, na), o.dims[1]], lambda i, j, o=o, c=c: ite(lt(i, n), o.at(i, j), c.at(ai(sub(i, n)), j))))
        return Arr([na], lambda i: ai(i))
    v.ip.summaries['update_data'] = upd
    OBJ = z3.Function('objective', IS, IS, RS)
    EVX, FB, FE_ = v.cell(UNIT), v.cell(UNIT), v.cell(UNIT)       # ghost: arguments of the callees on this path
    def ev2(ip, a):
        x = deref(a[2]); EVX.set(Tup([x])); return Arr([x.dims[0], s.ny], lambda i, j: OBJ(i, j))
    v.ip.summaries['eval_obj'] = ev2
    NB, FE = z3.Int('new_best'), z3.Bool('new_feasible')
    def fb(ip, a):
        FB.set(Tup([deref(t) for t in a])); ip.assume(band(ge(NB, 0), lt(NB, deref(a[2]).dims[0]))); return NB
    v.ip.summaries['find_best_result_index_from'] = fb
    def isf(ip, a):
        FE_.set(Tup([deref(t) for t in a])); return FE
    v.ip.summaries['is_feasible'] = isf
    pb = Opq('pb', methods={'fn_constraints': lambda ip, me, a: Opq('fcstrs')})
    v.ip.methods_of = {('Problem', 'take_problem'): lambda ip, me, a: SOME(pb)}
    me = St('EgorSolver', {'config': St('ValidEgorConfig', {'cstr_infill': v.bool('cstr_infill'), 'infill_criterion': Opq('criterion', methods={'name': lambda ip, me, a: Opq('str')})})})
    ok = 0
    for p in v.call('ego_step', [me, v.cell(St('Problem', {'problem': SOME(pb)})), s.st], owner='EgorSolver', mod='ego::solver::solver_impl'):
        with p:
            r = deref(p.value)
            if r.var == 'Err':
                t = deref(deref(r.ps[0]).ps[0])
                p.ensure('a step without new point keeps the best point', band(eq(deref(t.f['best_index']).ps[0], s.best), eq(deref(t.f['prev_best_index']).ps[0], s.best)))
                x, y, c = [deref(q) for q in deref(deref(t.f['data']).ps[0]).es]
                i, j, k = p.ix(s.n), p.ix(s.nx), p.ix(s.ny)
                p.ensure('and the history', band(eq(x.dims[0], s.n), eq(y.dims[0], s.n), eq(x.at(i, j), s.x.at(i, j)), eq(y.at(i, k), s.y.at(i, k))))
                continue
            ok += 1
            t = deref(r.ps[0]); x, y, c = [deref(q) for q in deref(deref(t.f['data']).ps[0]).es]
            na = sub(x.dims[0], s.n)
            p.ensure('at least one new row', ge(na, 1))
            p.ensure('inputs, outputs and constraints stay aligned', band(eq(y.dims[0], x.dims[0]), eq(c.dims[0], x.dims[0])))
            with p:
                i, j, k = p.ix(s.n), p.ix(s.nx), p.ix(s.ny)
                p.ensure('earlier inputs are kept', eq(x.at(i, j), s.x.at(i, j))); p.ensure('earlier outputs are kept', eq(y.at(i, k), s.y.at(i, k)))
            with p:
                i, k = p.ix(na), p.ix(s.ny)
                p.ensure('the outputs of a new row are what the objective returned for it', eq(y.at(add(s.n, i), k), OBJ(i, k)))
            with p:
                i, j = p.ix(na), p.ix(s.nx); ex = p.get(EVX).es[0]
                p.ensure('the objective is asked at the new rows, in order', band(eq(ex.dims[0], na), eq(ex.at(i, j), x.at(add(s.n, i), j))))
            p.ensure('the selected row becomes the best point', eq(deref(t.f['best_index']).ps[0], NB))
            p.ensure('the best point of the previous step is remembered', eq(deref(t.f['prev_best_index']).ps[0], s.best))
            p.ensure('feasibility is what the selected row says, never lost', eq(t.f['feasibility'], bor(s.feas, FE)))
            p.ensure('added points are counted', band(eq(t.f['added'], add(s.added, na)), eq(t.f['prev_added'], s.added)))
            p.ensure('budget, iteration and radius unchanged', band(eq(t.f['max_iters'], s.maxit), eq(t.f['iter'], s.it), eq(t.f['sigma'], s.sigma), eq(t.f['doe_size'], s.doe)))
            with p:
                a = p.get(FB).es; i, k, q = p.ix(x.dims[0]), p.ix(s.ny), p.ix(s.nc)
                p.ensure('selection compares the current best with the new rows', band(eq(a[0], s.best), eq(a[1], s.n), eq(a[2].at(i, k), y.at(i, k)), eq(a[3].at(i, q), c.at(i, q))))
            fe = p.get(FE_)
            if fe.es:
                with p:
                    k, q = p.ix(s.ny), p.ix(s.nc)
                    p.ensure('feasibility is that of the selected row', band(eq(fe.es[0].at(k), y.at(NB, k)), eq(fe.es[1].at(q), c.at(NB, q))))
    if not ok: raise Unsupported('no path adds a point')
    v.vacuity()
    return v
