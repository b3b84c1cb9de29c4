"""Mixtures of experts as contract inputs: any number of experts, any memberships."""
from rvc.vc import *
from .surr import *
M = 'moe::algorithm'
# membership of a point in cluster k, its derivatives, and its most probable cluster (contracts of the gaussian mixture)
P, DP, CL = z3.Function('proba', IS, IS, RS), z3.Function('dproba', IS, IS, IS, RS), z3.Function('cluster', IS, IS)

def mixture(pid, name, recomb):
    v = V(pid, name); n, nx, K = v.dim('n'), v.dim('nx'), v.dim('K'); x = v.arr('x', [n, nx])
    v.forall(lambda t: band(ge(CL(t), 0), lt(CL(t), K)))
    def rows(f, dims, cols=()):
        def m(ip, me, a):
            q = deref(a[0]); k = q.dims[0] if q.rank == 2 else None
            if k is None: raise Unsupported('memberships of one row')
            return Arr([k] + dims, lambda i, *r: f(rowkey(q, i)[0], *r))
        return m
    gmx = Opq('gmx', methods={'predict_probas': rows(lambda r, k: P(r, k), [K]), 'predict_probas_derivatives': rows(lambda r, k, j: DP(r, k, j), [K, nx]),
                              'predict': rows(lambda r: CL(r), []), 'n_clusters': lambda ip, me, a: K,
                              'predict_single_probas_derivatives': lambda ip, me, a: Arr([K, nx], lambda k, j: DP(rowkey(deref(a[0]), None)[0], k, j))})
    experts = Arr([K], lambda k: model(v, k, nx, True), kind='vec')
    me = St('GpMixture', {'recombination': En('Hard') if recomb == 'hard' else En('Smooth', [Opq('factor')]), 'experts': experts, 'gmx': gmx, 'gp_type': Opq('gp_type'),
                          'training_data': Tup([Opq('xt'), Opq('yt')]), 'params': Opq('params')})
    return v, n, nx, K, x, me
def total(K, g): return mkred('sum', K, g)
