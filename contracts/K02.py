"""K02: jacobians of kernels and trends are the derivatives of their values."""
from rvc.vc import *
from rvc.units import unit
from contracts.lib import KERN, split_prod
Z0 = z3.IntVal(0); R = z3.RealVal

def dleaf(name, j):
    """leaf derivative: d name(t) / d name(j)"""
    def leaf(t):
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name() == name and t.num_args() == 1:
            return ite(eq(t.arg(0), j), R(1), R(0))
        return None
    return leaf

def mk(ow, kind):
    @unit(f'{kind} jacobian', [f'gp::correlation_models::{ow}::jacobian', f'gp::correlation_models::{ow}::valjac', f'gp::correlation_models::{ow}::value', 'gp::utils::differences'])
    def u():
        v = V('K02', kind)
        n, nx, h = v.dim('n'), v.dim('nx'), v.dim('h')
        x, xt, th, w = v.arr('x', [nx]), v.arr('xt', [n, nx]), v.arr('theta', [h]), v.arr('w', [nx, h])
        v.forall(lambda t: implies(band(ge(t, 0), lt(t, h)), ge(th.at(t), R(0))))
        d = Arr([n, nx], lambda i, j: sub(x.at(j), xt.at(i, j)))
        me = St(ow, {})
        val = [p for p in v.call('value', [me, d, th, w], owner=ow, mod='gp::correlation_models')]
        jac = [p for p in v.call('jacobian', [me, x, xt, th, w], owner=ow, mod='gp::correlation_models')]
        both = [p for p in v.call('valjac', [me, x, xt, th, w], owner=ow, mod='gp::correlation_models')]
        for pv in val:
            with pv: V_ = pv.value
            for pj in jac:
                with pj:
                    J = pj.value; i, j = pj.ix(n), pj.ix(nx)
                    pj.ensure('one row per training point, one column per coordinate', band(eq(J.dims[0], n), eq(J.dims[1], nx)))
                    D = diff(V_.at(i, Z0), dleaf('x', j))
                    for sg, c in (('positive', gt(d.at(i, j), R(0))), ('negative', lt(d.at(i, j), R(0)))):
                        pj.ensure(f'jacobian is the derivative of the value ({sg} difference)', eq(J.at(i, j), D), extra=[c])
                    if kind == 'se': pj.ensure('jacobian is the derivative of the value', eq(J.at(i, j), D))
                for pb in both:
                    with pb:
                        r, jr = pb.value.es
                        i, j = pb.ix(n), pb.ix(nx)
                        pb.ensure('combined call returns the same values', eq(deref(r).at(i, Z0), V_.at(i, Z0)))
                        pb.ensure('combined call returns the same jacobian', eq(deref(jr).at(i, j), J.at(i, j)))
                        pb.ensure('combined call shapes', band(eq(deref(r).dims[0], n), eq(deref(jr).dims[0], n), eq(deref(jr).dims[1], nx)))
        v.vacuity()
        return v
for ow, kind in KERN.items(): mk(ow, kind)

def mk0(ow, kind):
    @unit(f'{kind} jacobian at a zero difference', [f'gp::correlation_models::{ow}::jacobian'])
    def u():
        v = V('K02', kind + '0')
        n, nx, h = v.dim('n'), v.dim('nx'), v.dim('h')
        x, xt0, th, w = v.arr('x', [nx]), v.arr('xt', [n, nx]), v.arr('theta', [h]), v.arr('w', [nx, h])
        i, j = v.ix('i', n), v.ix('j', nx)
        for p in v.call('jacobian', [St(ow, {}), x, xt0, th, w], owner=ow, mod='gp::correlation_models'):
            with p:
                g = T.replace_everywhere(canon(p.value.at(i, j)), x.at(j), xt0.at(i, j))
                g = T.replace_everywhere(split_prod(g, j), x.at(j), xt0.at(i, j))
                p.ensure('continuously differentiable kernel: zero derivative at a zero difference', eq(g, R(0)), extra=[eq(x.at(j), xt0.at(i, j))])
        return v
for ow in ('Matern32Corr', 'Matern52Corr'): mk0(ow, KERN[ow])

def mean(ow, kind):
    @unit(f'{kind} trend', [f'gp::mean_models::{ow}::value', f'gp::mean_models::{ow}::jacobian'])
    def u():
        v = V('K02', kind); n, nx = v.dim('n'), v.dim('nx')
        me = St(ow, {}); x = v.arr('xv', [n, nx])
        for p in v.call('value', [me, x], owner=ow, mod='gp::mean_models'):
            with p:
                a = p.value; i = p.ix(n)
                k, l = p.ix(nx), p.ix(nx)
                p.ensure('one row per point', eq(a.dims[0], n))
                p.ensure('monomial of degree 0', eq(a.at(i, Z0), R(1)))
                if kind == 'constant': p.ensure('one column', eq(a.dims[1], 1))
                else: p.ensure('monomials of degree 1', eq(a.at(i, add(1, k)), x.at(i, k)))
                if kind == 'linear': p.ensure('one column per coordinate and one', eq(a.dims[1], add(nx, 1)))
                if kind == 'quadratic':
                    p.ensure('number of monomials', eq(mul(2, a.dims[1]), mul(add(nx, 1), add(nx, 2))))
                    # x_k x_l, k <= l, is column 1 + nx + k nx - k(k-1)/2 + (l - k)
                    p.p.pc.append(le(k, l))
                    pos = add(add(1, nx), add(sub(mul(k, nx), tri(k)), sub(l, k)))
                    p.ensure('products of two coordinates', eq(a.at(i, pos), mul(x.at(i, k), x.at(i, l))))
        x1 = v.arr('x', [nx]); row = Arr([z3.IntVal(1), nx], lambda i, j: x1.at(j))
        for pv in v.call('value', [me, row], owner=ow, mod='gp::mean_models'):
            with pv: A = pv.value
            for p in v.call('jacobian', [me, x1], owner=ow, mod='gp::mean_models'):
                with p:
                    J = p.value
                    p.ensure('one row per monomial', band(eq(J.dims[0], A.dims[1]), eq(J.dims[1], nx)))
                    c, j = p.ix(A.dims[1]), p.ix(nx)
                    if kind != 'quadratic':
                        p.ensure('jacobian is the derivative of the value', eq(J.at(c, j), diff(A.at(Z0, c), dleaf('x', j))))
                    else:
                        k, l = p.ix(nx), p.ix(nx)
                        p.ensure('jacobian of degree 0', eq(J.at(Z0, j), R(0)))
                        p.ensure('jacobian of degree 1', eq(J.at(add(1, k), j), ite(eq(k, j), R(1), R(0))))
                        p.p.pc.append(le(k, l))
                        pos = add(add(1, nx), add(sub(mul(k, nx), tri(k)), sub(l, k)))
                        p.ensure('jacobian of products', eq(J.at(pos, j), add(ite(eq(k, j), x1.at(l), R(0)), ite(eq(l, j), x1.at(k), R(0)))))
        v.vacuity()
        return v
for ow, kind in (('ConstantMean', 'constant'), ('LinearMean', 'linear'), ('QuadraticMean', 'quadratic')): mean(ow, kind)
