"""N01: normalisation and difference tables."""
from rvc.vc import *
from rvc.units import unit

@unit('normalize', ['gp::utils::normalize', 'gp::utils::NormalizedData::new'])
def normalize():
    v = V('N01', 'normalize')
    n, m = v.dim('n', 2), v.dim('m')
    x = v.arr('x', [n, m])
    for p in v.call('new', [x], owner='NormalizedData', mod='gp::utils'):
        with p:
            r = p.value
            d, mean, std = r.f['data'], r.f['mean'], r.f['std']
            i, j = p.ix(n), p.ix(m)
            s = std.at(j)
            mu = div(mkred('sum', n, lambda k: x.at(k, j)), toreal(n))
            var = div(mkred('sum', n, lambda k: mul(sub(x.at(k, j), mu), sub(x.at(k, j), mu))), toreal(sub(n, 1)))
            p.ensure('one row per row, one column per column', band(eq(d.dims[0], n), eq(d.dims[1], m), eq(mean.dims[0], m), eq(std.dims[0], m)))
            p.ensure('mean is the column mean', eq(mean.at(j), mu))
            p.ensure('deviation is the column deviation, or one for a constant column', eq(s, ite(eq(sqrt(var), z3.RealVal(0)), z3.RealVal(1), sqrt(var))))
            p.ensure('deviation is not zero', ne(s, z3.RealVal(0)))
            p.ensure('normalised value times deviation plus mean is the original value', eq(add(mul(d.at(i, j), s), mean.at(j)), x.at(i, j)), extra=[ne(s, z3.RealVal(0))])
    v.vacuity()
    return v

@unit('difference table', ['gp::utils::DiffMatrix::new', 'gp::utils::DiffMatrix::_cross_diff'])
def diffm():
    v = V('N01', 'diffm'); n, m = v.dim('n', 2), v.dim('m')
    x = v.arr('x', [n, m])
    for p in v.call('new', [x], owner='DiffMatrix', mod='gp::utils'):
        with p:
            r = p.value
            d, ind = r.f['d'], r.f['d_indices']
            p.ensure('one row per unordered pair', band(eq(mul(2, d.dims[0]), mul(n, sub(n, 1))), eq(d.dims[1], m), eq(ind.dims[0], d.dims[0]), eq(ind.dims[1], 2), eq(r.f['n_obs'], n)))
            # the pair (a, b), a < b, is listed at a*(n-1) - a(a-1)/2 + b-a-1
            a, b, j = p.ix(n), p.ix(n), p.ix(m)
            p.p.pc.append(lt(a, b))
            pos = add(sub(mul(a, sub(n, 1)), tri(a)), sub(sub(b, a), 1))
            p.ensure('position in range', band(ge(pos, 0), lt(pos, d.dims[0])))
            p.p.pc.append(band(ge(pos, 0), lt(pos, d.dims[0])))
            p.ensure('first index of the pair', eq(ind.at(pos, 0), a))
            p.ensure('second index of the pair', eq(ind.at(pos, 1), b))
            p.ensure('absolute difference of the pair', eq(d.at(pos, j), absr(sub(x.at(a, j), x.at(b, j)))))
    v.vacuity()
    return v

@unit('pairwise differences', ['gp::utils::pairwise_differences'])
def pair():
    v = V('N01', 'pd'); n, n2, m = v.dim('n'), v.dim('n2'), v.dim('m')
    x = v.arr('x', [n, m]); y = v.arr('y', [n2, m])
    for p in v.call('pairwise_differences', [x, y], mod='gp::utils'):
        with p:
            a = p.value
            p.ensure('one row per ordered pair', band(eq(a.dims[0], mul(n, n2)), eq(a.dims[1], m)))
            i, j, k = p.ix(n), p.ix(n2), p.ix(m)
            p.ensure('row-major ordered pairs', eq(a.at(add(mul(i, n2), j), k), sub(x.at(i, k), y.at(j, k))))
    v.vacuity()
    return v
