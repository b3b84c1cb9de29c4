"""Equality of polynomials in nested finite sums: every term is flattened to  c * sum_{b1..bk} product of atoms  (distributivity and exchange of finite sums whose
ranges do not depend on each other), bound indices are renamed canonically (colour refinement, remaining ties tried in every order), equal terms are collected."""
import z3, re
from fractions import Fraction
from . import terms as T

class TooBig(Exception): pass
LIMIT = 4000

def has_sums(t): return any(r.kind == 'sum' for r in T.reds_of(t))

def flatten(t):
    """list of (coefficient, ((index, range), ...), (atom, ...))"""
    t = T.lift(t)
    if z3.is_rational_value(t) or z3.is_int_value(t):
        c = Fraction(t.as_fraction()) if z3.is_rational_value(t) else Fraction(t.as_long())
        return [(c, (), ())] if c else []
    if z3.is_app(t):
        k = t.decl().kind(); ch = t.children()
        if k == z3.Z3_OP_ADD: return [m for c in ch for m in flatten(c)]
        if k == z3.Z3_OP_SUB: return flatten(ch[0]) + [neg(m) for c in ch[1:] for m in flatten(c)]
        if k == z3.Z3_OP_UMINUS: return [neg(m) for m in flatten(ch[0])]
        if k == z3.Z3_OP_MUL:
            r = flatten(ch[0])
            for c in ch[1:]: r = times(r, c)
            return r
        if k == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) and ch[1].denominator_as_long() == 1 and 1 <= ch[1].numerator_as_long() <= 4:
            r = flatten(ch[0])
            for _ in range(ch[1].numerator_as_long() - 1): r = times(r, ch[0])
            return r
        if k == z3.Z3_OP_DIV:
            if z3.is_rational_value(ch[1]) and ch[1].numerator_as_long() != 0:
                c = Fraction(ch[1].as_fraction()); return [(a / c, b, f) for a, b, f in flatten(ch[0])]
            if not (z3.is_rational_value(ch[0]) and ch[0].as_fraction() == 1):
                return times(flatten(ch[0]), T.lift(1.0) / ch[1] if False else z3.RealVal(1) / ch[1])
        if t.num_args() == 0 and t.decl().name() in T.REDS:
            r = T.REDS[t.decl().name()]
            if r.kind == 'sum':
                b = T.fresh('fl', T.IS); out = []
                for c, bs, fs in flatten(T.subst(r.body, [(r.bv, b)])):
                    if any(T.depends(n, b) for _, n in bs): raise TooBig
                    out.append((c, ((b, r.n),) + bs, fs))
                return out
    return [(Fraction(1), (), (t,))]
def neg(m): return (-m[0],) + m[1:]
def times(r, c):
    # every occurrence of a sum gets its own indices
    out = []
    for a, b, f in r:
        for a2, b2, f2 in flatten(c): out.append((a * a2, b + b2, f + f2))
        if len(out) > LIMIT: raise TooBig
    return out

def template(f, names):
    """text of an atom with its bound indices as places"""
    s = f.sexpr(); inner = [r for r in T.reds_of(f)]
    occ = []
    def place(m):
        occ.append(m.group(0)); return '?'
    if inner and any(r.free & names for r in inner): raise TooBig
    return re.sub(r'\bfl!\d+', lambda m: place(m) if m.group(0) in names else m.group(0), s), tuple(occ)

def canonical(bs, fs):
    names = {b.decl().name() for b, _ in bs}
    ts = [template(f, names) for f in fs]
    col = {b.decl().name(): T.canon(n).sexpr() for b, n in bs}
    def refine(col):
        while True:
            new = {}
            sigs = [(t, tuple(col[o] for o in occ)) for t, occ in ts]
            for b in col:
                new[b] = (col[b], tuple(sorted((s, tuple(i for i, o in enumerate(occ) if o == b)) for s, (t, occ) in zip(sigs, ts) if b in occ)))
            rank = {c: i for i, c in enumerate(sorted(set(new.values()), key=repr))}
            new = {b: f'{rank[new[b]]:04d}' for b in new}
            if len(set(new.values())) == len(set(col.values())): return new
            col = new
    tries = [0]
    def search(col):
        col = refine(col)
        cls = {}
        for b, c in col.items(): cls.setdefault(c, []).append(b)
        tie = next((c for c in sorted(cls) if len(cls[c]) > 1), None)
        if tie is None:
            pos = {b: i for i, b in enumerate(sorted(col, key=lambda b: col[b]))}
            return tuple(sorted((t, tuple(pos[o] for o in occ)) for t, occ in ts))
        tries[0] += 1
        if tries[0] > 200: raise TooBig
        best = None
        for b in cls[tie]:
            c2 = dict(col); c2[b] = tie + '!'
            r = search(c2)
            if best is None or r < best: best = r
        return best
    body = search(col)
    return tuple(sorted(T.canon(n).sexpr() for _, n in bs)), body

def is_zero(t):
    try:
        acc = {}
        ms = flatten(t)
        if len(ms) > LIMIT: return False
        for c, bs, fs in ms:
            k = canonical(bs, fs); acc[k] = acc.get(k, 0) + c
        return all(v == 0 for v in acc.values())
    except TooBig: return False

def equal(a, b): return is_zero(T.sub(a, b))

def text(t):
    """canonical text of an entry: equal texts, equal values"""
    try:
        acc = {}
        for c, bs, fs in flatten(t):
            k = canonical(bs, fs); acc[k] = acc.get(k, 0) + c
        return repr(sorted(((k, str(v)) for k, v in acc.items() if v), key=repr))
    except TooBig: return t.sexpr()
