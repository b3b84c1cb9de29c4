"""X03: splitting training data."""
from rvc.vc import *
from rvc.units import unit
from .find import *
I = z3.IntVal
LEVEL = 'other'

@unit('splitting by cluster', ['moe::clustering::sort_by_cluster'])
def split():
    v = V('X03', 'split'); K, n, d = v.dim('K'), v.dim('n'), v.dim('d')
    x = v.arr('x', [n, d]); lab = v.arr('lab', [n], sort=IS)
    for p in v.call('sort_by_cluster', [K, x, lab], mod='moe::clustering'):
        with p:
            out = p.value
            p.ensure('one part per cluster', eq(out.dims[0], K))
            c = p.ix(K); part = out.at(c); m = part.dims[0]
            p.ensure('rows keep their width', eq(part.dims[1], d))
            r, j = p.ix(m), p.ix(d)
            sel = named(part.at(r, j), 'sel@')[0]; src = src_of(part.at(r, j), 'x')
            p.ensure('a row of a part is a row labelled with its cluster', band(ge(src, 0), lt(src, n), eq(lab.at(src), c), eq(part.at(r, j), x.at(src, j))))
            nxt = src_of(part.at(add(r, 1), j), 'x')
            p.ensure('rows keep their order', implies(lt(add(r, 1), m), lt(src, nxt)))
        with p:
            out = p.value; i = p.ix(n); c = p.ix(K); j = p.ix(d); part = out.at(c); r0 = fresh('r', IS)
            sel = named(part.at(r0, j), 'sel@')[0]; rank = named_in(v, sel, 'rank@')
            at = rank(*(app_args(part.at(r0, j), sel)[:-1] + [i]))
            p.ensure('every row is in the part of its label', implies(eq(lab.at(i), c), band(ge(at, 0), lt(at, part.dims[0]), eq(part.at(at, j), x.at(i, j)))))
    v.vacuity()
    return v

@unit('holding out rows', ['moe::algorithm::extract_part'])
def held():
    v = V('X03', 'held'); n, d, q = v.dim('n'), v.dim('d'), v.dim('q'); x = v.arr('x', [n, d])
    for p in v.call('extract_part', [x, q], mod='moe::algorithm'):
        with p:
            a, b = p.value.es; j = p.ix(d); i = p.ix(n)
            p.ensure('rows keep their width', band(eq(a.dims[1], d), eq(b.dims[1], d)))
            r = p.ix(a.dims[0]); s = p.ix(b.dims[0])
            p.ensure('held out rows are the rows at multiples of the step', band(lt(mul(r, q), n), eq(a.at(r, j), x.at(mul(r, q), j))))
            p.ensure('every row at a multiple of the step is held out', implies(lt(mul(r, q), n), lt(r, a.dims[0])))
            src = src_of(b.at(s, j), 'x')
            p.ensure('the other rows are kept, intact', band(ge(src, 0), lt(src, n), bnot(eq(mod(src, q), 0)), eq(b.at(s, j), x.at(src, j))))
            nxt = src_of(b.at(add(s, 1), j), 'x')
            p.ensure('kept rows stay in order', implies(lt(add(s, 1), b.dims[0]), lt(src, nxt)))
            sel = named(b.at(s, j), 'sel!')[0]; rank = named_in(v, sel, 'rank!')
            p.ensure('every other row is kept', implies(bnot(eq(mod(i, q), 0)), band(ge(rank(i), 0), lt(rank(i), b.dims[0]), eq(b.at(rank(i), j), x.at(i, j)))))
        with p:
            a = p.value.es[0]; i = p.ix(n); k = z3.Int('k!')
            p.ensure('rows at multiples of the step are all held out', implies(band(ge(k, 0), eq(i, mul(k, q))), lt(k, a.dims[0])))
    v.vacuity()
    return v

@unit('enough rows for the trend', ['moe::algorithm::check_number_of_points'])
def enough():
    v = V('X03', 'enough'); K, d = v.dim('K', 2), v.dim('d'); size = z3.Function('size', IS, IS)
    v.forall(lambda i: ge(size(i), 0))
    quad, lin = v.bool('quad'), v.bool('lin')
    parts = Arr([K], lambda c: Arr([size(c), d], lambda i, j: z3.Function('xx', IS, IS, IS, RS)(c, i, j)), 'vec')
    def contains(ip, me, a):
        return {'QUADRATIC': quad, 'LINEAR': lin}[deref(a[0]).name]
    need = ite(quad, div(mul(add(d, 1), add(d, 2)), 2), ite(lin, add(d, 1), I(1)))
    for p in v.call('check_number_of_points', [parts, d, Opq('regr', methods={'contains': contains})], mod='moe::algorithm'):
        with p:
            c = p.ix(K)
            if p.value.var == 'Ok': p.ensure('accepted parts have the rows their trend needs', ge(size(c), need))
            else: p.ensure('rejected when a part is too small', mkred('or', K, lambda c: lt(size(c), need)))
    v.vacuity()
    return v
