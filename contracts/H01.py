"""H01: the evaluation history."""
from rvc.vc import *
from rvc.units import unit
from .surr import *
M = 'ego::utils::misc'
TOL = z3.Q(100, 2 ** 52)
def dist(a, r, b, s, nx): return mkred('sum', nx, lambda j: absr(sub(a.at(r, j), b.at(s, j))))

@unit('acceptance of a point', [M + '::is_update_ok'])
def accept():
    v = V('H01', 'accept'); n, nx = v.dim('n', 0), v.dim('nx'); x, z = v.arr('x', [n, nx]), v.arr('z', [nx])
    d = lambda r: mkred('sum', nx, lambda j: absr(sub(x.at(r, j), z.at(j))))
    for p in v.call('is_update_ok', [x, z], mod=M):
        with p:
            ok = p.value; i = p.ix(n)
            p.ensure('accepted only when it differs from every point present', implies(ok, ge(d(i), TOL)))
            p.ensure('refused only when it repeats a point present', implies(bnot(ok), mkred('or', n, lambda r: lt(d(r), TOL))))
    v.vacuity()
    return v

@unit('adding candidates', [M + '::update_data', M + '::is_update_ok'])
def update():
    v = V('H01', 'update'); n, m, nx, ny, nc = v.dim('n', 0), v.dim('m', 0), v.dim('nx'), v.dim('ny'), v.dim('nc', 0)
    x, y, c = v.arr('x', [n, nx]), v.arr('y', [n, ny]), v.arr('c', [n, nc])
    xn, yn, cn = v.arr('xn', [m, nx]), v.arr('yn', [m, ny]), v.arr('cn', [m, nc])
    X, Y, C = v.cell(x), v.cell(y), v.cell(c)
    for p in v.call('update_data', [X, Y, C, xn, yn, cn], mod=M):
        with p:
            app = p.value; X1, Y1, C1 = p.get(X), p.get(Y), p.get(C)
            na = app.dims[0]; N = add(n, na)
            for nm, a, old, new, w in (('inputs', X1, x, xn, nx), ('outputs', Y1, y, yn, ny), ('constraint values', C1, c, cn, nc)):
                p.ensure(f'{nm}: one row more per added candidate', band(eq(a.dims[0], N), eq(a.dims[1], w)))
                j = p.ix(w)
                i = p.ix(n); p.ensure(f'{nm}: earlier rows unchanged and in order', eq(a.at(i, j), old.at(i, j)))
                k = p.ix(na); p.ensure(f'{nm}: added rows are the reported candidates', eq(a.at(add(n, k), j), new.at(app.at(k), j)))
        with p:
            k = p.ix(na)
            p.ensure('reported indices are candidates', band(ge(app.at(k), 0), lt(app.at(k), m)))
        with p:
            k, l = p.ix(na), p.ix(na)
            p.ensure('reported in order, each once', implies(lt(k, l), lt(app.at(k), app.at(l))))
        with p:
            k = p.ix(na); i = p.ix(add(n, k))
            p.ensure('an added candidate differs from every point already present', ge(dist(X1, i, xn, app.at(k), nx), TOL))
        with p:
            i = p.ix(m); _, seg, off, cnt = app.meta        # ghost: cnt(i) = 1 when candidate i was added, off(i) earlier ones
            p.ensure('each candidate is added once or not at all', band(ge(cnt(i), 0), le(cnt(i), 1)))
            p.ensure('an added candidate is reported', implies(eq(cnt(i), 1), band(ge(off(i), 0), lt(off(i), na), eq(app.at(off(i)), i))))
    v.vacuity()
    return v

LEVEL = 'other'
