"""M01: encoding and decoding of mixed-integer points."""
from rvc.units import unit
from .mix import *

@unit('encoding', [M + '::unfold_with_enum_mask', M + '::compute_continuous_dim'])
def encode():
    v = V('M01', 'encode'); n, nr = v.dim('n'), v.dim('nr', 0)
    ts = xtypes(v, n); X = fsym('x', 2)
    x = Arr([nr, n], lambda r, i: ite(ENUM(i), toreal(IDX(r, i)), X(r, i)))
    a, b = fresh('a', IS), fresh('b', IS)
    SCHEMAS.setdefault('idx', {})['level'] = ((a, b), implies(band(ge(a, 0), lt(a, nr), ge(b, 0), lt(b, n), ENUM(b)), band(ge(IDX(a, b), 0), lt(IDX(a, b), SIZ(b)))))
    for p in v.call('unfold_with_enum_mask', [ts, x], mod=M):
        with p:
            u = p.value; r, i = p.ix(nr), p.ix(n)
            p.ensure('one column per level of a categorical variable, one for any other', band(eq(u.dims[0], nr), eq(u.dims[1], off(n))))
            p.ensure('a non-categorical coordinate is copied to its column', implies(bnot(ENUM(i)), eq(u.at(r, off(i)), X(r, i))))
            k = p.ix(SIZ(i))
            p.ensure('the level of a categorical coordinate is marked by one, the others by zero', implies(ENUM(i), eq(u.at(r, add(off(i), k)), ite(eq(k, IDX(r, i)), R(1), R(0)))))
    v.vacuity()
    return v

@unit('decoding', [M + '::fold_with_enum_index'])
def decode():
    v = V('M01', 'decode'); n, nr = v.dim('n'), v.dim('nr', 0)
    ts = xtypes(v, n); x = v.arr('x', [nr, off(n)])
    grow_lemma(v, n)
    for p in v.call('fold_with_enum_index', [ts, x], mod=M):
        with p:
            f = p.value; r, i = p.ix(nr), p.ix(n)
            p.ensure('one column per variable', band(eq(f.dims[0], nr), eq(f.dims[1], n)))
            p.ensure('a non-categorical coordinate is read from its column', implies(bnot(ENUM(i)), eq(f.at(r, i), x.at(r, off(i)))))
            k = p.ix(SIZ(i)); own = band(ENUM(i), eq(off(i), i)); lv = level(f.at(r, i), i)
            p.ensure('a categorical coordinate (whose columns start at its own index) is a level', implies(own, band(eq(f.at(r, i), toreal(lv)), ge(lv, 0), lt(lv, SIZ(i)))))
            p.ensure('the column of that level holds the largest value of its columns', implies(own, ge(x.at(r, add(off(i), lv)), x.at(r, add(off(i), k)))))
    v.vacuity()
    return v

LEVEL = 'other'
