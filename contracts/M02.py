"""M02: discretisation of relaxed points."""
from rvc.units import unit
from .mix import *

@unit('closest listed value', [M + '::take_closest'])
def closest():
    v = V('M02', 'closest'); n = v.dim('n'); vals = v.arr('vals', [n], kind='vec'); x = v.real('x')
    for p in v.call('take_closest', [vals, x], mod=M, generics={'F': 'f64'}):
        with p:
            c = p.value; k = p.ix(n)
            p.ensure('the result is a listed value', mkred('or', n, lambda i: eq(vals.at(i), c)))
            p.ensure('no listed value is closer', le(absr(sub(x, c)), absr(sub(x, vals.at(k)))))
            p.ensure('a listed value is its own closest value', implies(eq(x, vals.at(k)), eq(c, x)))
    v.vacuity()
    return v

@unit('discretisation', [M + '::cast_to_discrete_values_mut', M + '::cast_to_discrete_values', M + '::take_closest'])
def cast():
    v = V('M02', 'cast'); n, nr = v.dim('n'), v.dim('nr', 0)
    ts = xtypes(v, n); x = v.arr('x', [nr, off(n)])
    for p in v.call('cast_to_discrete_values', [ts, x], mod=M):
        with p:
            c = p.value; r, i = p.ix(nr), p.ix(n); o = off(i)
            p.ensure('same shape', band(eq(c.dims[0], nr), eq(c.dims[1], off(n))))
            fl = band(bnot(ENUM(i)), bnot(ORD(i)), bnot(INT(i))); it = band(bnot(ENUM(i)), bnot(ORD(i)), INT(i)); od = band(bnot(ENUM(i)), ORD(i))
            a, b = x.at(r, o), c.at(r, o)
            p.ensure('a continuous coordinate is unchanged', implies(fl, eq(b, a)))
            p.ensure('an integer coordinate is rounded to the nearest integer', implies(it, band(eq(b, floor(b)), le(absr(sub(b, a)), z3.Q(1, 2)))))
            p.ensure('a rounded coordinate stays within integer bounds', implies(band(it, le(ILO(i), IHI(i)), ge(a, toreal(ILO(i))), le(a, toreal(IHI(i)))), band(ge(b, toreal(ILO(i))), le(b, toreal(IHI(i))))))
            z = fresh('z', IS)
            p.ensure('an integer coordinate already integral is unchanged', implies(band(it, eq(a, toreal(z))), eq(b, a)))
            k = p.ix(LEN(i))
            p.ensure('an ordered coordinate becomes a listed value', implies(od, mkred('or', LEN(i), lambda l: eq(VAL(i, l), b))))
            p.ensure('no listed value is closer', implies(od, le(absr(sub(a, b)), absr(sub(a, VAL(i, k))))))
            p.ensure('a listed value is unchanged', implies(band(od, eq(a, VAL(i, k))), eq(b, a)))
        with p:
            e = ENUM(i); p.p.pc.append(e); k, l = p.ix(SIZ(i)), p.ix(SIZ(i))
            at = lambda q: c.at(r, add(o, q)); src = lambda q: x.at(r, add(o, q))
            p.ensure('a categorical coordinate is one in one column and zero in the others', implies(e, band(bor(eq(at(k), R(0)), eq(at(k), R(1))), implies(band(eq(at(k), R(1)), eq(at(l), R(1))), eq(k, l)))))
            p.ensure('the column set to one held the largest value', implies(band(e, eq(at(k), R(1))), ge(src(k), src(l))))
            w = witness(p, at(k), i)
            p.ensure('exactly one column is set', implies(e, band(ge(w, 0), lt(w, SIZ(i)), eq(at(w), R(1)))))
    v.vacuity()
    return v

@unit('relaxed bounds', [M + '::as_continuous_limits'])
def limits():
    v = V('M02', 'limits'); n = v.dim('n')
    ts = xtypes(v, n)
    for p in v.call('as_continuous_limits', [ts], mod=M, generics={'F': 'f64'}):
        with p:
            l = p.value; i = p.ix(n); o = off(i)
            p.ensure('one row per relaxed column, lower and upper bound', band(eq(l.dims[0], off(n)), eq(l.dims[1], 2)))
            fl = band(bnot(ENUM(i)), bnot(ORD(i)), bnot(INT(i))); it = band(bnot(ENUM(i)), bnot(ORD(i)), INT(i)); od = band(bnot(ENUM(i)), ORD(i))
            p.ensure('bounds of a continuous variable', implies(fl, band(eq(l.at(o, I(0)), FLO(i)), eq(l.at(o, I(1)), FHI(i)))))
            p.ensure('bounds of an integer variable', implies(it, band(eq(l.at(o, I(0)), toreal(ILO(i))), eq(l.at(o, I(1)), toreal(IHI(i))))))
            k = p.ix(LEN(i))
            p.ensure('bounds of an ordered variable enclose its values', implies(od, band(le(l.at(o, I(0)), VAL(i, k)), ge(l.at(o, I(1)), VAL(i, k)))))
        with p:
            p.p.pc.append(ENUM(i)); k = p.ix(SIZ(i))
            p.ensure('unit bounds for the columns of a categorical variable', band(eq(l.at(add(o, k), I(0)), R(0)), eq(l.at(add(o, k), I(1)), R(1))))
    v.vacuity()
    return v

LEVEL = 'other'
