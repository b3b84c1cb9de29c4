"""The optimisation state and solver as contract inputs."""
from rvc.vc import *
R, I = z3.RealVal, z3.IntVal
MS = 'ego::solver::egor_state'

class EgoState:
    """an arbitrary state: history of n points, indices of best points, radius and counters"""
    def __init__(self, v, **over):
        self.n, self.nx, self.ny, self.nc = v.dim('n'), v.dim('nx'), v.dim('ny'), v.dim('nc', 0)
        self.x, self.y, self.c = v.arr('x', [self.n, self.nx]), v.arr('y', [self.n, self.ny]), v.arr('c', [self.n, self.nc])
        self.best, self.prev = v.ix('best', self.n), v.ix('prev', self.n)
        self.sigma = v.real('sigma'); self.it, self.maxit, self.lbi = v.int('iter'), v.int('max_iters'), v.int('last_best_iter')
        self.doe = v.int('doe_size'); self.added, self.padded = v.int('added'), v.int('prev_added'); self.infill = v.real('infill_value')
        for t in (self.it, self.maxit, self.lbi, self.doe, self.added, self.padded): v.require(ge(t, 0))
        self.ego, self.feas = v.bool('prev_step_ego'), v.bool('feasibility')
        self.tol = v.arr('tol', [sub(add(self.ny, self.nc), 1)])
        self.target = v.real('target')
        self.rng = Opq('rng', methods={'r#gen': lambda ip, me, a: Opq('seed'), 'gen': lambda ip, me, a: Opq('seed')})
        f = {'param': NONE(), 'prev_param': NONE(), 'best_param': NONE(), 'prev_best_param': NONE(), 'feasibility': self.feas, 'cost': NONE(), 'prev_cost': NONE(),
             'best_cost': NONE(), 'prev_best_cost': NONE(), 'target_cost': self.target, 'iter': self.it, 'last_best_iter': self.lbi, 'max_iters': self.maxit,
             'counts': Opq('counts'), 'time': Opq('time'), 'termination_status': Opq('status'), 'doe_size': self.doe, 'added': self.added, 'prev_added': self.padded,
             'no_point_added_retries': v.int('retries'), 'lhs_optim': v.bool('lhs_optim'), 'cstr_tol': self.tol, 'infill_value': self.infill,
             'clusterings': SOME(Opq('clusterings')), 'theta_inits': SOME(Opq('theta_inits')), 'data': SOME(Tup([self.x, self.y, self.c])),
             'prev_best_index': SOME(self.prev), 'best_index': SOME(self.best), 'infill_data': Opq('infill_data'), 'sigma': self.sigma, 'prev_step_ego': self.ego,
             'activity': NONE(), 'run_data': NONE(), 'rng': SOME(self.rng)}
        f.update(over)
        self.st = St('EgorState', f)
