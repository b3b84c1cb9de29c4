"""D04: distance tables."""
from rvc.vc import *
from rvc.units import unit

def l2(m, a, b):
    return sqrt(mkred('sum', m, lambda k: mul(sub(a(k), b(k)), sub(a(k), b(k)))))

@unit('pairwise distances', ['doe::utils::pdist'])
def pdist():
    v = V('D04', 'pdist'); n, m = v.dim('n'), v.dim('m')
    x = v.arr('x', [n, m])
    for p in v.call('pdist', [x], mod='doe::utils'):
        with p:
            d = p.value
            p.ensure('one distance per unordered pair', eq(mul(2, d.dims[0]), mul(n, sub(n, 1))))
            a, b = p.ix(n), p.ix(n)
            p.p.pc.append(lt(a, b))
            pos = add(sub(mul(a, sub(n, 1)), tri(a)), sub(sub(b, a), 1))
            p.ensure('position in range', band(ge(pos, 0), lt(pos, d.dims[0])))
            p.p.pc.append(band(ge(pos, 0), lt(pos, d.dims[0])))
            p.ensure('euclidean distance of the pair', eq(d.at(pos), l2(m, lambda k: x.at(a, k), lambda k: x.at(b, k))))
    v.vacuity()
    return v

@unit('cross distances', ['doe::utils::cdist'])
def cdist():
    v = V('D04', 'cdist'); n, n2, m = v.dim('n'), v.dim('n2'), v.dim('m')
    x = v.arr('x', [n, m]); y = v.arr('y', [n2, m])
    for p in v.call('cdist', [x, y], mod='doe::utils'):
        with p:
            d = p.value
            p.ensure('one row and one column per point', band(eq(d.dims[0], n), eq(d.dims[1], n2)))
            i, j = p.ix(n), p.ix(n2)
            p.ensure('euclidean distance of the pair', eq(d.at(i, j), l2(m, lambda k: x.at(i, k), lambda k: y.at(j, k))))
    v.vacuity()
    return v
