"""B01: selection of the best point."""
from rvc.vc import *
from rvc.units import unit
from .surr import *
M = 'ego::utils::find_result'

def data(name):
    v = V('B01', name); n, p, q = v.dim('n'), v.dim('p'), v.dim('q', 0)
    y, c, tol = v.arr('y', [n, p]), v.arr('c', [n, q]), v.arr('tol', [sub(add(p, q), 1)])
    v.require(lt(n, z3.IntVal(2 ** 63)))
    val = lambda i, j: ite(lt(add(j, 1), p), y.at(i, add(j, 1)), c.at(i, sub(add(j, 1), p)))
    m = sub(add(p, q), 1)
    viol = lambda i: mkred('sum', m, lambda j: ite(gt(val(i, j), tol.at(j)), absr(sub(val(i, j), tol.at(j))), R(0)))
    v.forall(lambda i: lt(y.at(i, Z0), z3.Const('INF', RS)))       # evaluations are free of undefined and infinite values
    return v, n, p, q, y, c, tol, val, viol, m

def best(p, r, t, y, viol):
    """r is at least as good as t"""
    p.ensure('a feasible point is selected when there is one', implies(eq(viol(t), R(0)), eq(viol(r), R(0))))
    p.ensure('no other feasible point has a smaller objective', implies(eq(viol(t), R(0)), le(y.at(r, Z0), y.at(t, Z0))))
    p.ensure('otherwise least total violation', le(viol(r), viol(t)))

@unit('incremental selection', [M + '::find_best_result_index_from', M + '::cstr_min', M + '::cstr_sum'])
def incremental():
    v, n, p, q, y, c, tol, val, viol, m = data('from')
    cur, off = v.int('cur'), v.int('off'); v.require(band(ge(cur, 0), lt(cur, off), le(off, n)))
    for pt in v.call('find_best_result_index_from', [cur, off, y, c, tol], mod=M):
        with pt:
            r = pt.value
            pt.ensure('the current best or one of the new points', bor(eq(r, cur), band(ge(r, off), lt(r, n))))
            best(pt, r, cur, y, viol)
        with pt:
            t = pt.ix(sub(n, off)); best(pt, pt.value, add(off, t), y, viol)
    v.vacuity()
    return v

@unit('selection over the history', [M + '::find_best_result_index'])
def whole():
    v, n, p, q, y, c, tol, val, viol, m = data('whole')
    for pt in v.call('find_best_result_index', [y, c, tol], mod=M):
        with pt:
            r = pt.value
            pt.ensure('one of the points', band(ge(r, 0), lt(r, n)))
            t = pt.ix(n)
            with pt: best(pt, r, t, y, viol)
    v.vacuity()
    return v

@unit('meaning of zero violation', [M + '::cstr_sum'])
def meaning():
    v, n, p, q, y, c, tol, val, viol, m = data('meaning')
    i = v.ix('i', n); j = v.ix('j', m)
    s = viol(i); r = T.REDS[s.decl().name()]
    b = v.bool('within_all'); allw = mkred('and', m, lambda j: le(val(i, j), tol.at(j)))
    row = Arr([add(m, 1)], lambda k: ite(eq(k, 0), y.at(i, Z0), val(i, sub(k, 1))))
    for pt in v.call('cstr_sum', [row, tol], mod=M):
        with pt:
            pt.ensure('sum of the violations', eq(pt.value, s))
            pt.ensure('zero when every constraint is within tolerance', implies(allw, eq(s, R(0))))
            one = T.red_at(r, j)
            pt.ensure('a violated constraint makes it positive', implies(gt(val(i, j), tol.at(j)), gt(one, R(0))))
            pt.ensure('never negative', ge(s, R(0)))
    v.vacuity()
    return v
