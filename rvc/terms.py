"""Scalar term layer: z3 terms over Int/Real/Bool, unbounded reductions (sum, product, ...)
as named symbols with recorded bodies, canonical forms, formal differentiation, prover."""
import z3, itertools, time, math
from fractions import Fraction

class Unsupported(Exception):
    pass

RS, IS, BS = z3.RealSort(), z3.IntSort(), z3.BoolSort()
FS = z3.Float64()
RNE = z3.RNE()

def is_term(x): return isinstance(x, z3.ExprRef)

def lift(x):
    if isinstance(x, bool): return z3.BoolVal(x)
    if isinstance(x, int): return z3.IntVal(x)
    if isinstance(x, Fraction): return z3.RealVal(x)
    if isinstance(x, float): return z3.RealVal(Fraction(x))
    return x

def is_real(x): return (is_term(x) and x.sort() == RS) or isinstance(x, (Fraction, float))
def is_int(x): return (is_term(x) and x.sort() == IS) or (isinstance(x, int) and not isinstance(x, bool))
def is_bool(x): return (is_term(x) and x.sort() == BS) or isinstance(x, bool)
def is_fp(x): return is_term(x) and z3.is_fp(x)
def is_scalar(x): return is_term(x) or isinstance(x, (int, Fraction, float, bool))

def toreal(x):
    x = lift(x)
    if x.sort() == IS:
        if z3.is_int_value(x): return z3.RealVal(x.as_long())
        return z3.ToReal(x)
    return x

def pair(a, b):
    a, b = lift(a), lift(b)
    if a.sort() == b.sort(): return a, b
    if is_fp(a) and not is_fp(b): return a, fpval(b)
    if is_fp(b) and not is_fp(a): return fpval(a), b
    if a.sort() == RS and b.sort() == IS: return a, toreal(b)
    if a.sort() == IS and b.sort() == RS: return toreal(a), b
    raise Unsupported(f"sort mismatch {a.sort()} {b.sort()}")

def fpval(x):
    x = lift(x)
    if z3.is_rational_value(x) or z3.is_int_value(x):
        return z3.FPVal(float(Fraction(x.as_fraction()) if z3.is_rational_value(x) else x.as_long()), FS)
    raise Unsupported("cannot turn symbolic real into float")

def isnum(t, v=None):
    if isinstance(t, (int, Fraction)) and not isinstance(t, bool): return v is None or t == v
    if not is_term(t): return False
    if z3.is_int_value(t): return v is None or t.as_long() == v
    if z3.is_rational_value(t): return v is None or t.as_fraction() == v
    return False

def numval(t):
    if isinstance(t, (int, Fraction)): return Fraction(t)
    if z3.is_int_value(t): return Fraction(t.as_long())
    if z3.is_rational_value(t):
        return Fraction(t.numerator_as_long(), t.denominator_as_long())
    return None

def mknum(fr, sort):
    if sort == IS and Fraction(fr).denominator != 1: raise Unsupported(f"fraction {fr} in integer arithmetic")
    return z3.IntVal(int(fr)) if sort == IS else z3.RealVal(fr)

def add(a, b):
    a, b = pair(a, b)
    if is_fp(a): return z3.fpAdd(RNE, a, b)
    if isnum(a) and isnum(b): return mknum(numval(a) + numval(b), a.sort())
    if isnum(a, 0): return b
    if isnum(b, 0): return a
    return a + b
def sub(a, b):
    a, b = pair(a, b)
    if is_fp(a): return z3.fpSub(RNE, a, b)
    if isnum(a) and isnum(b): return mknum(numval(a) - numval(b), a.sort())
    if isnum(b, 0): return a
    if a.eq(b): return mknum(Fraction(0), a.sort())
    return a - b
def mul(a, b):
    a, b = pair(a, b)
    if is_fp(a): return z3.fpMul(RNE, a, b)
    if isnum(a) and isnum(b): return mknum(numval(a) * numval(b), a.sort())
    if isnum(a, 0) or isnum(b, 0): return mknum(Fraction(0), a.sort())
    if isnum(a, 1): return b
    if isnum(b, 1): return a
    return a * b
def div(a, b):
    a, b = pair(a, b)
    if is_fp(a): return z3.fpDiv(RNE, a, b)
    if a.sort() == IS:
        if isnum(b, 1): return a
        if isnum(b, 2):
            y = tri_root(a)
            if y is not None: return tri(y)
        return a / b  # nonnegative ints: floor = trunc
    if isnum(b, 1): return a
    if isnum(a) and isnum(b) and numval(b) != 0: return mknum(numval(a) / numval(b), RS)
    return a / b
def tri(y):
    """y(y-1)/2 over the integers"""
    return uf('tri', y, sort=IS)
def tri_root(a):
    """y with a == y*(y-1), y = v or v+1 for an atom v"""
    p = to_poly(a)
    sq = [m for m, c in p.items() if len(m) == 1 and m[0][1] == 2 and c == 1]
    if len(sq) != 1 or len(p) != 2: return None
    x = sq[0][0][0]; c = p.get(((x, 1),))
    if c == -1: return ATOMS[x]
    if c == 1: return ATOMS[x] + 1
    return None
def mod(a, b):
    a, b = pair(a, b)
    if a.sort() == IS: return a % b
    raise Unsupported("real mod")
def neg(a):
    a = lift(a)
    if is_fp(a): return z3.fpNeg(a)
    if isnum(a): return mknum(-numval(a), a.sort())
    return -a
def lt(a, b):
    a, b = pair(a, b)
    if is_fp(a): return z3.fpLT(a, b)
    if isnum(a) and isnum(b): return z3.BoolVal(numval(a) < numval(b))
    return a < b
def le(a, b):
    a, b = pair(a, b)
    if is_fp(a): return z3.fpLEQ(a, b)
    if isnum(a) and isnum(b): return z3.BoolVal(numval(a) <= numval(b))
    if a.eq(b): return z3.BoolVal(True)
    return a <= b
def gt(a, b): return lt(b, a)
def ge(a, b): return le(b, a)
def eq(a, b):
    a, b = pair(a, b)
    if is_fp(a): return z3.fpEQ(a, b)
    if a.eq(b): return z3.BoolVal(True)
    if isnum(a) and isnum(b): return z3.BoolVal(numval(a) == numval(b))
    return a == b
def ne(a, b): return bnot(eq(a, b))
def bnot(a):
    a = lift(a)
    if z3.is_true(a): return z3.BoolVal(False)
    if z3.is_false(a): return z3.BoolVal(True)
    if z3.is_not(a): return a.arg(0)
    return z3.Not(a)
def band(*xs):
    out = []
    for x in xs:
        x = lift(x)
        if z3.is_true(x): continue
        if z3.is_false(x): return z3.BoolVal(False)
        out.append(x)
    if not out: return z3.BoolVal(True)
    if len(out) == 1: return out[0]
    return z3.And(*out)
def bor(*xs):
    out = []
    for x in xs:
        x = lift(x)
        if z3.is_false(x): continue
        if z3.is_true(x): return z3.BoolVal(True)
        out.append(x)
    if not out: return z3.BoolVal(False)
    if len(out) == 1: return out[0]
    return z3.Or(*out)
def implies(a, b): return bor(bnot(a), b)
def ite(c, a, b):
    c = lift(c)
    if z3.is_true(c): return lift(a)
    if z3.is_false(c): return lift(b)
    a, b = pair(a, b)
    if a.eq(b): return a
    if TAGS and a.sort() != BS and tag_only(c): return tag_ite(c, a, b)
    return z3.If(c, a, b)

# kinds of a symbolic enum value are boolean atoms; conditions over them are kept as ordered decision trees
TAGS = []
def tag_key(p): return (TAGS.index(p.decl().name()), p.sexpr())
def tag_atoms(c, acc):
    if z3.is_true(c) or z3.is_false(c): return True
    if z3.is_and(c) or z3.is_or(c) or z3.is_not(c): return all(tag_atoms(x, acc) for x in c.children())
    if z3.is_app(c) and c.decl().kind() == z3.Z3_OP_UNINTERPRETED and c.decl().name() in TAGS: acc[c.get_id()] = c; return True
    return False
def tag_only(c): return tag_atoms(c, {})
def tag_top(t):
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE and z3.is_app(t.arg(0)) and t.arg(0).decl().name() in TAGS: return t.arg(0)
def tag_cof(t, p, hi):
    q = tag_top(t)
    if q is not None and q.eq(p): return t.arg(1) if hi else t.arg(2)
    return t
def tag_ite(c, a, b):
    if z3.is_true(c): return a
    if z3.is_false(c): return b
    if a.eq(b): return a
    acc = {}; tag_atoms(c, acc); ps = list(acc.values())
    for t in (a, b):
        q = tag_top(t)
        if q is not None: ps.append(q)
    p = min(ps, key=tag_key)
    c1, c0 = [z3.simplify(z3.substitute(c, (p, z3.BoolVal(h)))) for h in (True, False)]
    x, y = tag_ite(c1, tag_cof(a, p, True), tag_cof(b, p, True)), tag_ite(c0, tag_cof(a, p, False), tag_cof(b, p, False))
    return x if x.eq(y) else z3.If(p, x, y)

_F = {}
def uf(name, *args, sort=RS):
    args = [lift(a) for a in args]
    sorts = [a.sort() for a in args]
    key = (name, tuple(str(s) for s in sorts), str(sort))
    if key not in _F:
        _F[key] = z3.Function(name, *sorts, sort)
    return _F[key](*args)

def absr(a):
    a = lift(a)
    if is_fp(a): return z3.fpAbs(a)
    if isnum(a): return mknum(abs(numval(a)), a.sort())
    if a.sort() == IS: return ite(lt(a, mknum(Fraction(0), a.sort())), neg(a), a)
    return abs_term(a)
def abs_term(a):
    """|a| with the sign and the factors of a monomial pulled out: |-a| == |a|, |c x y| == |c| |x| |y|"""
    p = to_poly(a)
    if not p: return z3.RealVal(0)
    if len(p) == 1:
        (m, c), = p.items()
        r = z3.RealVal(abs(c))
        for x, e in m:
            t = ATOMS[x]
            pos = z3.is_app(t) and (t.decl().name() in ('exp', 'abs') or (t.decl().name() == 'sqrt' and isnum(t.arg(0))))
            b = t if pos else uf('abs', t)
            if e % 2 == 0: b = t
            for _ in range(abs(e)): r = mul(r, b) if e > 0 else div(r, b)
        return r
    lead = sorted(p.items(), key=lambda kv: tuple((ATOMS[x].sexpr(), e) for x, e in kv[0]))[-1][1]
    if lead < 0: p = {m: -c for m, c in p.items()}
    return uf('abs', from_poly(p, RS))
def signum(a):
    a = lift(a)
    if is_fp(a): raise Unsupported("fp signum")
    return ite(lt(a, z3.RealVal(0)), z3.RealVal(-1), z3.RealVal(1))
def minr(a, b):
    a, b = pair(a, b)
    if is_fp(a): return z3.If(z3.fpIsNaN(a), b, z3.If(z3.fpIsNaN(b), a, z3.If(z3.fpLEQ(a, b), a, b)))
    return ite(le(a, b), a, b)
def maxr(a, b):
    a, b = pair(a, b)
    if is_fp(a): return z3.If(z3.fpIsNaN(a), b, z3.If(z3.fpIsNaN(b), a, z3.If(z3.fpGEQ(a, b), a, b)))
    return ite(ge(a, b), a, b)
def exp(a):
    a = toreal(a)
    if isnum(a, 0): return z3.RealVal(1)
    return uf('exp', a)
def ln(a):
    a = toreal(a)
    if isnum(a, 1): return z3.RealVal(0)
    return uf('ln', a)
def log10(a):
    a = toreal(a)
    if isnum(a, 1): return z3.RealVal(0)
    return uf('log10', a)
def sqrt(a):
    a = toreal(a)
    if isnum(a, 0) or isnum(a, 1): return a
    return uf('sqrt', a)
def powr(a, b):
    a = toreal(a); b = lift(b)
    nb = numval(b)
    if nb is not None and nb.denominator == 1 and 0 <= nb <= 8:
        r = z3.RealVal(1)
        for _ in range(int(nb)): r = mul(r, a)
        return r
    return uf('pow', a, toreal(b))
def floor(a):
    return z3.ToReal(z3.ToInt(toreal(a)))
def floori(a): return z3.ToInt(toreal(a))
def round_(a):
    # Rust round: half away from zero
    a = toreal(a)
    return ite(ge(a, z3.RealVal(0)), z3.ToReal(z3.ToInt(a + z3.Q(1, 2))), -z3.ToReal(z3.ToInt(-a + z3.Q(1, 2))))
def ceil(a):
    a = toreal(a)
    return -z3.ToReal(z3.ToInt(-a))
def int_value(a):
    """the integer term equal to the real term a, if a is one by construction"""
    if isnum(a): return z3.IntVal(int(numval(a))) if numval(a).denominator == 1 else None
    if not z3.is_app(a): return None
    k = a.decl().kind()
    if k == z3.Z3_OP_TO_REAL: return a.arg(0)
    if k == z3.Z3_OP_ITE:
        p, q = int_value(a.arg(1)), int_value(a.arg(2))
        return None if p is None or q is None else ite(a.arg(0), p, q)
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS, z3.Z3_OP_SUB):
        xs = [int_value(c) for c in a.children()]
        if any(x is None for x in xs): return None
        if k == z3.Z3_OP_UMINUS: return neg(xs[0])
        r = xs[0]
        for x in xs[1:]: r = add(r, x) if k == z3.Z3_OP_ADD else mul(r, x) if k == z3.Z3_OP_MUL else sub(r, x)
        return r
    return None

def as_usize(a):
    a = lift(a)
    if a.sort() == IS: return a
    if a.sort() == BS: return ite(a, 1, 0)
    # saturating truncation
    return ite(lt(a, z3.RealVal(0)), z3.IntVal(0), z3.ToInt(a))

# ---------------------------------------------------------------- fresh
_cnt = itertools.count()
def fresh(name, sort=RS):
    return z3.Const(f"{name}!{next(_cnt)}", sort)
def fresh_fun(name, doms, rng=RS):
    return z3.Function(f"{name}!{next(_cnt)}", *doms, rng)

# ---------------------------------------------------------------- reductions
class Red:
    __slots__ = ('kind', 'n', 'bv', 'body', 'sym', 'free', 'depth', 'ax')

REDS = {}      # sym name -> Red
_redkey = {}

_consts_cache = {}
def consts_of(t):
    """set of 0-ary uninterpreted constant names in t, closed under reduction bodies"""
    k = t.get_id()
    c = _consts_cache.get(k)
    if c is not None and c[0].eq(t): return c[1]
    s = set(); seen = set(); st = [t]
    while st:
        u = st.pop()
        i = u.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_app(u):
            if u.num_args() == 0 and u.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                nm = u.decl().name()
                s.add(nm)
                r = REDS.get(nm)
                if r: s |= r.free
            else:
                st.extend(u.children())
        elif z3.is_quantifier(u):
            st.append(u.body())
    _consts_cache[k] = (t, s)
    return s

def depends(t, c):
    return c.decl().name() in consts_of(t)

def reds_of(t):
    """reduction records directly occurring in t"""
    out = {}; seen = set(); st = [t]
    while st:
        u = st.pop(); i = u.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_app(u):
            if u.num_args() == 0 and u.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                r = REDS.get(u.decl().name())
                if r: out[u.decl().name()] = r
            else: st.extend(u.children())
    return list(out.values())

def subst(t, m):
    """substitute constants (list of (const, term)) including inside reduction bodies"""
    t = lift(t)
    m = [(a, lift(b)) for a, b in m]
    names = {a.decl().name() for a, _ in m}
    if not (consts_of(t) & names): return t
    pairs = list(m)
    for r in reds_of(t):
        if r.free & names:
            mm = [(a, b) for a, b in m if a.decl().name() in r.free]
            # avoid capture: rename bv first
            bv = fresh('bvx', r.bv.sort())
            body = subst(subst(r.body, [(r.bv, bv)]), mm)
            n = subst(r.n, mm)
            pairs.append((r.sym, mkred_term(r.kind, n, bv, body)))
    return z3.substitute(t, *pairs)

def replace_everywhere(t, u, v):
    """replace the term u by v, including inside reduction bodies"""
    t = lift(t)
    pairs = [(u, v)]
    for r in reds_of(t):
        n2, b2 = replace_everywhere(r.n, u, v), replace_everywhere(r.body, u, v)
        if not (n2.eq(r.n) and b2.eq(r.body)):
            bv = fresh('bvx', r.bv.sort())
            pairs.append((r.sym, mkred_term(r.kind, n2, bv, subst(b2, [(r.bv, bv)]))))
    return z3.substitute(t, *pairs)

def mkred(kind, n, fn):
    n = lift(n)
    v = numval(n) if isnum(n) else None
    if v is not None and v <= 6:
        acc = None
        for i in range(int(v)):
            x = fn(z3.IntVal(i))
            acc = x if acc is None else RED2[kind](acc, x)
        return acc if acc is not None else RED0[kind]()
    bv = fresh('bvx', IS)
    body = lift(fn(bv))
    return mkred_term(kind, n, bv, body)

RED2 = {'sum': add, 'prod': mul, 'isum': add, 'and': lambda a, b: band(a, b), 'or': lambda a, b: bor(a, b),
        'min': minr, 'max': maxr}
RED0 = {'sum': lambda: z3.RealVal(0), 'prod': lambda: z3.RealVal(1), 'isum': lambda: z3.IntVal(0),
        'and': lambda: z3.BoolVal(True), 'or': lambda: z3.BoolVal(False)}

def find_delta(body, bv):
    """find ite whose condition is an equality bv == t (t free of bv); returns (ite, t) or None"""
    seen = set(); st = [body]
    while st:
        u = st.pop(); i = u.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_app(u):
            if u.decl().kind() == z3.Z3_OP_ITE:
                c = u.arg(0)
                neg_ = False
                if z3.is_not(c): c = c.arg(0); neg_ = True
                if z3.is_eq(c) and c.arg(0).sort() == IS:
                    t = solve_lin(c.arg(0), c.arg(1), bv)
                    if t is not None: return (u, t, neg_)
            st.extend(u.children())
    return None

def solve_lin(a, b, bv):
    """solve a == b for bv when affine with coefficient +-1"""
    if not (depends(a, bv) or depends(b, bv)): return None
    d = z3.simplify(a - b)
    p = to_poly(d)
    coef = None; rest = {}
    for m, c in p.items():
        hasbv = any(ATOMS[x].eq(bv) for x, e in m)
        dep = any(depends(ATOMS[x], bv) for x, e in m)
        if hasbv and len(m) == 1 and m[0][1] == 1:
            coef = c
        elif dep: return None
        else: rest[m] = c
    if coef in (1, -1):
        return from_poly({m: (-c / coef) for m, c in rest.items()}, IS)
    return None

def replace_sub(t, u, v):
    return z3.substitute(t, (u, v))

def hoistable(body, bv):
    """condition of an ite in body that does not depend on bv"""
    seen = set(); st = [body]
    while st:
        u = st.pop(); i = u.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_app(u):
            if u.decl().kind() == z3.Z3_OP_ITE:
                c = u.arg(0)
                if not depends(c, bv): return c
                if z3.is_and(c) or z3.is_or(c):
                    for x in c.children():
                        if not depends(x, bv) and not z3.is_true(x): return x
            st.extend(u.children())
    return None

def range_conds(body, bv, n):
    """conditions of ites in body that say bv is in the range of the reduction"""
    out = {}; seen = set(); st = [body]; forms = None
    while st:
        u = st.pop(); i = u.get_id()
        if i in seen: continue
        seen.add(i)
        if not z3.is_app(u): continue
        if u.decl().kind() == z3.Z3_OP_ITE:
            cs = [u.arg(0)]
            while cs:
                c = cs.pop()
                if z3.is_and(c) or z3.is_or(c) or z3.is_not(c): cs.extend(c.children())
                elif depends(c, bv) and c.num_args() == 2 and c.arg(0).sort() == IS and c.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT) and c.get_id() not in out:
                    if forms is None: forms = [z3.simplify(bv), z3.simplify(n - 1 - bv)]
                    k = c.decl().kind(); a, b = c.children()
                    if k in (z3.Z3_OP_LE, z3.Z3_OP_LT): a, b = b, a
                    d = z3.simplify(a - b - (1 if k in (z3.Z3_OP_LT, z3.Z3_OP_GT) else 0))
                    if any(z3.is_int_value(e) and e.as_long() >= 0 for e in (z3.simplify(d - f) for f in forms)): out[c.get_id()] = c
        st.extend(u.children())
    return list(out.values())

def pick_cond(t, c, val):
    from .prover import simp_ite
    return simp_ite(z3.substitute(t, (c, z3.BoolVal(val))))

def nested_sum(kind, n, bv, dep, srt, swap):
    """sum over bv of a monomial; the order of two nested sums is normalised"""
    plain = mkred_atom(kind, n, bv, from_poly({dep: Fraction(1)}, srt))
    if not swap: return plain
    inner = [(x, e) for x, e in dep if e == 1 and z3.is_const(ATOMS[x]) and ATOMS[x].decl().name() in REDS and REDS[ATOMS[x].decl().name()].kind == kind]
    if len(inner) != 1: return plain
    r = REDS[ATOMS[inner[0][0]].decl().name()]
    if depends(r.n, bv): return plain
    a, b = n.sexpr(), r.n.sexpr()
    if a < b: return plain
    rest = from_poly({tuple(m for m in dep if m != inner[0]): Fraction(1)}, srt)
    bv2 = fresh('bvx', IS)
    def other(sw):
        return mkred_term(kind, r.n, bv2, mkred_term(kind, n, bv, mul(rest, subst(r.body, [(r.bv, bv2)])), sw), sw)
    if a > b: return other(True)
    o = other(False)
    # equal ranges: keep the smaller of the two forms
    return min((plain, o), key=lambda t: shape(t))

def shape(t, seen=None):
    """text of a term with its reductions expanded (names of the reductions do not matter)"""
    t = lift(t)
    k = t.get_id()
    c = _shape.get(k)
    if c is not None and c[0].eq(t): return c[1]
    s = t.sexpr()
    rs = reds_of(t)
    for r in sorted(rs, key=lambda r: -len(r.sym.decl().name())):
        s = s.replace(r.sym.sexpr(), f"({r.kind} {r.n.sexpr()} {shape(r.body)})")
    _shape[k] = (t, s)
    return s
_shape = {}

def mkred_term(kind, n, bv, body, swap=True):
    n = z3.simplify(lift(n)) if not isnum(n) else lift(n)
    body = lift(body)
    if isnum(n) and numval(n) <= 6:
        acc = None
        for i in range(max(0, int(numval(n)))):
            x = subst(body, [(bv, z3.IntVal(i))])
            acc = x if acc is None else RED2[kind](acc, x)
        return acc if acc is not None else RED0[kind]()
    if kind == 'sum' and body.sort() == IS: kind = 'isum'
    for c in range_conds(body, bv, n): body = pick_cond(body, c, True)
    if kind in ('sum', 'isum'):
        srt = RS if kind == 'sum' else IS
        d = find_delta(body, bv)
        if d is not None:
            u, t, ng = d
            a, b = (u.arg(1), u.arg(2)) if not ng else (u.arg(2), u.arg(1))
            B = replace_sub(body, u, b)
            A = replace_sub(body, u, a)
            rest = mkred_term(kind, n, bv, B)
            corr = subst(sub(A, B), [(bv, t)])
            return add(rest, ite(band(le(0, t), lt(t, n)), corr, mknum(Fraction(0), srt)))
        hc = hoistable(body, bv)
        if hc is not None:
            return ite(hc, mkred_term(kind, n, bv, pick_cond(body, hc, True), swap), mkred_term(kind, n, bv, pick_cond(body, hc, False), swap))
        p = to_poly(body)
        out = None
        terms = {}
        for m, c in p.items():
            dep = [(x, e) for x, e in m if depends(ATOMS[x], bv)]
            ind = [(x, e) for x, e in m if not depends(ATOMS[x], bv)]
            terms.setdefault(tuple(dep), {})[tuple(ind)] = c
        res = mknum(Fraction(0), srt)
        for dep, cof in sorted(terms.items()):
            cofr = from_poly(cof, srt)
            if not dep:
                s = toreal(n) if srt == RS else n
                if True:
                    s = ite(lt(n, 0), mknum(Fraction(0), srt), s) if not isnum(n) and not nonneg_dim(n) else s
            elif srt == IS and len(dep) == 1 and dep[0][1] == 1 and ATOMS[dep[0][0]].eq(bv):
                s = ite(lt(n, 0), z3.IntVal(0), tri(n)) if not nonneg_dim(n) else tri(n)
            else:
                s = nested_sum(kind, n, bv, dep, srt, swap)
            res = add(res, mul(cofr, s))
        return res
    if kind == 'prod':
        body = canon(body)
        if isnum(body, 1): return body
        if isnum(body, 0): return ite(gt(n, 0), body, z3.RealVal(1))
        if body.decl().kind() == z3.Z3_OP_ITE:
            c = body.arg(0); A, B = body.arg(1), body.arg(2)
            if z3.is_not(c): c, A, B = c.arg(0), B, A
            if (z3.is_and(c) or z3.is_or(c)) and depends(c, bv):
                ind = [x for x in c.children() if not depends(x, bv)]
                dep = [x for x in c.children() if depends(x, bv)]
                if ind:
                    if z3.is_and(c): return ite(band(*ind), mkred_term(kind, n, bv, ite(band(*dep), A, B)), mkred_term(kind, n, bv, B))
                    return ite(bor(*ind), mkred_term(kind, n, bv, A), mkred_term(kind, n, bv, ite(bor(*dep), A, B)))
        if body.decl().kind() == z3.Z3_OP_ITE and not depends(body.arg(0), bv):
            return ite(body.arg(0), mkred_term(kind, n, bv, body.arg(1)), mkred_term(kind, n, bv, body.arg(2)))
        if body.decl().kind() == z3.Z3_OP_ITE:
            d = find_delta(body, bv)
            if d is not None and d[0].eq(body):
                u, t, ng = d
                a, b = (u.arg(1), u.arg(2)) if not ng else (u.arg(2), u.arg(1))
                if not isnum(a, 1):
                    r = ite(band(le(0, t), lt(t, n)), subst(a, [(bv, t)]), z3.RealVal(1))
                    return r if isnum(b, 1) else mul(r, mkred_term(kind, n, bv, ite(eq(bv, t), z3.RealVal(1), b)))
        return mkred_atom(kind, n, bv, body)
    return mkred_atom(kind, n, bv, canon(body) if body.sort() != BS else z3.simplify(body))

NONNEG = set()   # names of constants known >= 0 (dimensions)
def nonneg_dim(n):
    if isnum(n): return numval(n) >= 0
    if z3.is_const(n): return n.decl().name() in NONNEG or n.decl().name().startswith(('bv!', 'bvx!', 'ix!'))
    if z3.is_app(n) and n.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_MUL):
        return all(nonneg_dim(c) for c in n.children())
    return False

def mkred_atom(kind, n, bv, body):
    if kind == 'prod' and isnum(canon(body), 1): return mknum(Fraction(1), body.sort())
    depth = 1 + max([r.depth for r in reds_of(body)] + [0])
    cb = z3.Const(f"bv!{depth}", bv.sort())
    if not bv.eq(cb): body = subst(body, [(bv, cb)])
    key = (kind, n.sexpr(), body.sexpr())
    if key in _redkey: return _redkey[key].sym
    r = Red(); r.kind = kind; r.n = n; r.bv = cb; r.body = body; r.depth = depth
    srt = body.sort()
    r.sym = z3.Const(f"{kind}#{len(REDS)}", srt)
    r.free = (consts_of(body) | consts_of(n)) - {cb.decl().name()}
    REDS[r.sym.decl().name()] = r
    _redkey[key] = r
    return r.sym

def red_at(r, t): return subst(r.body, [(r.bv, t)])

# ---------------------------------------------------------------- canonical polynomials
ATOMS = {}
_atomid = {}
def atom(t):
    k = t.sexpr()
    i = _atomid.get(k)
    if i is None:
        i = len(ATOMS); _atomid[k] = i; ATOMS[i] = t
    return i

_pcache = {}
def padd(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + s * c
        if v == 0: r.pop(m, None)
        else: r[m] = v
    return r
def mmul(a, b):
    d = dict(a)
    for x, e in b: 
        d[x] = d.get(x, 0) + e
        if d[x] == 0: del d[x]
    return tuple(sorted(d.items()))
def pmul(p, q):
    r = {}
    for a, c in p.items():
        for b, d in q.items():
            m = mmul(a, b); v = r.get(m, 0) + c * d
            if v == 0: r.pop(m, None)
            else: r[m] = v
    return sqrt_reduce(r)

SQRT_OK = set()  # sexpr of args known nonneg
FACTS = set()    # sexpr of canonical conditions known to hold
NONZERO = set()  # sexpr of terms known non-zero: t * (1/t) -> 1

def sqrt_reduce(p):
    out = None
    for m, c in p.items():
        for x, e in m:
            t = ATOMS[x]
            if e >= 2 and z3.is_app(t) and t.decl().name() == 'abs' and t.num_args() == 1:
                if out is None: out = {}
                break
            if (e >= 2 or e <= -1) and z3.is_app(t) and t.decl().name() == 'sqrt':
                a = t.arg(0)
                if e == -1 and not a.sexpr() in NONZERO: continue
                if isnum(a) and numval(a) >= 0 or a.sexpr() in SQRT_OK:
                    if out is None: out = {}
                    break
        if out is not None: break
    if out is None: return p
    out = {}
    for m, c in p.items():
        cur = {(): c}
        for x, e in m:
            t = ATOMS[x]
            isabs = z3.is_app(t) and t.decl().name() == 'abs' and t.num_args() == 1
            if e >= 2 and (isabs or (z3.is_app(t) and t.decl().name() == 'sqrt' and (isnum(t.arg(0)) or t.arg(0).sexpr() in SQRT_OK))):
                base = to_poly(t.arg(0))
                if isabs: base = pmul(base, base)
                for _ in range(e // 2): cur = pmul(cur, base)
                if e % 2: cur = pmul(cur, {((x, 1),): Fraction(1)})
            else:
                if e <= -1 and z3.is_app(t) and t.decl().name() == 'sqrt' and t.arg(0).sexpr() in SQRT_OK and (e <= -2 or t.arg(0).sexpr() in NONZERO):
                    iv = to_poly(z3.RealVal(1) / t.arg(0))
                    q = -(e // 2) if t.arg(0).sexpr() in NONZERO else (-e) // 2
                    for _ in range(q): cur = pmul(cur, iv)
                    e = e + 2 * q
                    if e == 0: continue
                nx = {}
                for mm, cc in cur.items():
                    k2 = mmul(mm, ((x, e),)); nx[k2] = nx.get(k2, 0) + cc
                cur = nx
        out = padd(out, cur)
    return out

def to_poly(t):
    k = t.get_id()
    c = _pcache.get(k)
    if c is not None and c[0].eq(t): return c[1]
    p = _to_poly(t)
    _pcache[k] = (t, p)
    return p

def clear_cache():
    _pcache.clear(); _ccache.clear()

def _to_poly(t):
    if isnum(t): 
        v = numval(t)
        return {(): v} if v != 0 else {}
    if z3.is_app(t):
        k = t.decl().kind()
        if k == z3.Z3_OP_ADD:
            r = {}
            for c in t.children(): r = padd(r, to_poly(c))
            return r
        if k == z3.Z3_OP_SUB:
            ch = t.children(); r = to_poly(ch[0])
            for c in ch[1:]: r = padd(r, to_poly(c), -1)
            return r
        if k == z3.Z3_OP_UMINUS: return {m: -c for m, c in to_poly(t.arg(0)).items()}
        if k == z3.Z3_OP_MUL:
            r = {(): Fraction(1)}
            for c in t.children(): r = pmul(r, to_poly(c))
            return r
        if k == z3.Z3_OP_POWER and isnum(t.arg(1)) and numval(t.arg(1)).denominator == 1 and 0 <= numval(t.arg(1)) <= 8:
            r = {(): Fraction(1)}
            for _ in range(int(numval(t.arg(1)))): r = pmul(r, to_poly(t.arg(0)))
            return r
        if k == z3.Z3_OP_DIV and t.sort() == RS:
            p, q = to_poly(t.arg(0)), to_poly(t.arg(1))
            if len(q) == 1:
                (m, c), = q.items()
                if not m: return {a: x / c for a, x in p.items()}
                inv = {(): 1 / c}
                for x, e in m:
                    at = ATOMS[x]
                    if z3.is_app(at) and at.decl().name() == 'sqrt' and isnum(at.arg(0)) and numval(at.arg(0)) > 0:
                        inv = {mmul(k0, ((x, e),)): v0 / numval(at.arg(0)) ** e for k0, v0 in inv.items()}; inv = sqrt_reduce(inv)
                    elif at.sexpr() in NONZERO: inv = {mmul(list(inv)[0], ((x, -e),)): list(inv.values())[0]}
                    else:
                        iv = atom(z3.RealVal(1) / at)
                        inv = {mmul(list(inv)[0], ((iv, e),)): list(inv.values())[0]}
                return pmul(p, inv)
            d = from_poly(q, RS)
            return pmul(p, {((atom(z3.RealVal(1) / d), 1),): Fraction(1)})
        if k == z3.Z3_OP_TO_REAL:
            p = to_poly(t.arg(0))
            r = {}
            for m, c in p.items():
                cur = {(): c}
                for x, e in m: cur = {mmul(list(cur)[0], ((atom(z3.ToReal(ATOMS[x])), e),)): c}
                r = padd(r, cur)
            return r
    u = canon_inner(t)
    if z3.is_app(u) and u.decl().kind() in (z3.Z3_OP_MUL, z3.Z3_OP_ADD) and t.sort() == IS: return to_poly(u)
    return {((atom(u), 1),): Fraction(1)}

def from_poly(p, sort):
    if not p: return mknum(Fraction(0), sort)
    ts = []
    def key(m): return tuple((ATOMS[x].sexpr(), e) for x, e in m)
    for m, c in sorted(p.items(), key=lambda kv: key(kv[0])):
        f = None; den = None
        for x, e in sorted(m, key=lambda xe: ATOMS[xe[0]].sexpr()):
            a = ATOMS[x]
            for _ in range(abs(e)):
                if e > 0: f = a if f is None else f * a
                else: den = a if den is None else den * a
        if f is None: f = mknum(Fraction(1), sort)
        if c != 1:
            f = mknum(c, sort) * f if not (isnum(f, 1)) else mknum(c, sort)
        if den is not None: f = f / den
        ts.append(f)
    r = ts[0]
    for x in ts[1:]: r = r + x
    return r

_ccache = {}
def canon(t):
    t = lift(t)
    if t.sort() in (RS, IS):
        return from_poly(to_poly(t), t.sort())
    return canon_inner(t)

def canon_inner(t):
    """canonicalise arguments of non-arithmetic heads"""
    k = t.get_id()
    c = _ccache.get(k)
    if c is not None and c[0].eq(t): return c[1]
    r = _canon_inner(t)
    _ccache[k] = (t, r)
    return r

def norm_cond(c):
    """one of c and its negation, the same for both: (condition, negated?)"""
    if not z3.is_app(c) or c.decl().kind() not in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT) or c.arg(0).sort() not in (RS, IS): return c, False
    srt = c.arg(0).sort(); k = c.decl().kind()
    p = padd(to_poly(c.arg(0)), to_poly(c.arg(1)), -1)
    if k in (z3.Z3_OP_GE, z3.Z3_OP_GT): p = {m: -x for m, x in p.items()}
    strict = k in (z3.Z3_OP_LT, z3.Z3_OP_GT)
    z = mknum(Fraction(0), srt)
    if srt == RS:
        if strict: return from_poly(p, srt) < z, False
        return from_poly({m: -x for m, x in p.items()}, srt) < z, True
    if not strict: p = padd(p, {(): Fraction(1)}, -1)
    if not [m for m in p if m != ()]: return c, False
    lead = sorted(((m, x) for m, x in p.items() if m != ()), key=lambda kv: tuple((ATOMS[x].sexpr(), e) for x, e in kv[0]))[-1][1]
    if lead > 0: return from_poly(p, srt) < z, False
    return from_poly(padd({m: -x for m, x in p.items()}, {(): Fraction(1)}, -1), srt) < z, True

POSFUNS = set()      # names of functions (of contracts) that take values at least one
def pos_bound(d):
    """a lower bound of the polynomial from the lower bounds of its symbols, or None"""
    lo = Fraction(0)
    for m, c in d.items():
        if m == (): lo += c; continue
        if c < 0 or len(m) != 1 or m[0][1] != 1: return None
        a = ATOMS[m[0][0]]
        if not z3.is_app(a) or a.decl().name() not in POSFUNS: return None
        lo += c
    return lo

def gcd_of(d):
    g = 0
    for m, c in d.items():
        if m != (): g = math.gcd(g, abs(int(c)))
    return g or 1

def content(t):
    """the greatest integer dividing every coefficient of an integer polynomial (0 for the zero polynomial)"""
    g = 0
    for c in to_poly(t).values():
        if c.denominator != 1: return 1
        g = math.gcd(g, abs(c.numerator))
    return g

def divide(t, g): return from_poly({m: c / g for m, c in to_poly(t).items()}, IS)

def _canon_inner(t):
    if not z3.is_app(t) or t.num_args() == 0: return t
    kind = t.decl().kind()
    if kind == z3.Z3_OP_ITE:
        c = canon(t.arg(0))
        if z3.is_true(c): return canon(t.arg(1))
        if z3.is_false(c): return canon(t.arg(2))
        a, b = canon(t.arg(1)), canon(t.arg(2))
        if a.eq(b): return a
        if z3.is_not(c): c, a, b = c.arg(0), b, a
        c, flip = norm_cond(c)
        if flip: a, b = b, a
        if t.sort() == IS:
            g = math.gcd(content(a), content(b))
            if g > 1: return canon(mknum(Fraction(g), IS) * z3.If(c, divide(a, g), divide(b, g)))
        return z3.If(c, a, b)
    if kind in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ) and t.arg(0).sort() in (RS, IS):
        srt = t.arg(0).sort()
        d = padd(to_poly(t.arg(0)), to_poly(t.arg(1)), -1)
        if not d: return z3.BoolVal(kind in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_EQ))
        if len(d) == 1 and () in d:
            v = d[()]
            return z3.BoolVal({z3.Z3_OP_LE: v <= 0, z3.Z3_OP_LT: v < 0, z3.Z3_OP_GE: v >= 0, z3.Z3_OP_GT: v > 0, z3.Z3_OP_EQ: v == 0}[kind])
        if POSFUNS and srt == IS:
            lo = pos_bound(d); hi = pos_bound({m: -c for m, c in d.items()})
            if kind == z3.Z3_OP_EQ and (lo is not None and lo > 0 or hi is not None and hi > 0): return z3.BoolVal(False)
            if kind != z3.Z3_OP_EQ:
                if kind in (z3.Z3_OP_LE, z3.Z3_OP_LT): lo, hi = hi, lo      # read as: d' >= 0 or d' > 0
                if lo is not None and (lo > 0 or lo == 0 and kind in (z3.Z3_OP_GE, z3.Z3_OP_LE)): return z3.BoolVal(True)
                if hi is not None and (hi > 0 or hi == 0 and kind in (z3.Z3_OP_GT, z3.Z3_OP_LT)): return z3.BoolVal(False)
        # sign-normalise
        lead = sorted(d.items(), key=lambda kv: tuple((ATOMS[x].sexpr(), e) for x, e in kv[0]))[-1][1]
        s = abs(lead)
        if kind == z3.Z3_OP_EQ:
            if srt == IS:
                g = gcd_of(d) * (1 if lead > 0 else -1)
                if (d.get((), Fraction(0)) / g).denominator != 1: return z3.BoolVal(False)
                return from_poly({m: c / g for m, c in d.items()}, srt) == mknum(Fraction(0), srt)
            return from_poly({m: c / lead for m, c in d.items()}, srt) == mknum(Fraction(0), srt)
        if srt == RS: d = {m: c / s for m, c in d.items()}
        if kind in (z3.Z3_OP_GE, z3.Z3_OP_GT):
            d = {m: -c for m, c in d.items()}
            kind = z3.Z3_OP_LE if kind == z3.Z3_OP_GE else z3.Z3_OP_LT
        if srt == IS and gcd_of(d) > 1:      # g p + c <= 0 iff p + ceil(c / g) <= 0
            g = gcd_of(d); c0 = d.pop((), Fraction(0)); d = {m: c / g for m, c in d.items()}
            c1 = Fraction(-((-c0) // g)) if kind == z3.Z3_OP_LE else Fraction(c0 // g) 
            if c1: d[()] = c1
        tt = from_poly(d, srt); z = mknum(Fraction(0), srt)
        r = tt <= z if kind == z3.Z3_OP_LE else tt < z
        if FACTS:
            if r.sexpr() in FACTS: return z3.BoolVal(True)
            # the complementary comparison
            dn = from_poly({m: -c for m, c in d.items()}, srt)
            nr = dn < z if kind == z3.Z3_OP_LE else dn <= z
            if nr.sexpr() in FACTS: return z3.BoolVal(False)
            if kind == z3.Z3_OP_LE and (tt < z).sexpr() in FACTS: return z3.BoolVal(True)
        return r
    if kind == z3.Z3_OP_NOT:
        a = canon(t.arg(0))
        return bnot(a)
    if kind == z3.Z3_OP_AND: return band(*[canon(c) for c in t.children()])
    if kind == z3.Z3_OP_OR: return bor(*[canon(c) for c in t.children()])
    if kind == z3.Z3_OP_DIV: return t  # handled as atom 1/x
    args = [canon(c) for c in t.children()]
    if kind == z3.Z3_OP_UNINTERPRETED and t.num_args() == 1 and t.decl().name() == 'abs': return abs_term(args[0])
    if kind == z3.Z3_OP_UNINTERPRETED and t.num_args() == 1 and t.decl().name() == 'exp' and isnum(args[0], 0):
        return z3.RealVal(1)
    if kind == z3.Z3_OP_TO_INT:
        a = canon(t.arg(0)); r = int_value(a)
        if r is not None: return canon(r)
        q = to_poly(a).get((), 0)
        if q and q.denominator != 1:
            r = int_value(canon(sub(a, z3.Q(q.numerator, q.denominator))))
            if r is not None: return canon(add(r, q.numerator // q.denominator))
        return z3.ToInt(a)
    if kind == z3.Z3_OP_IDIV or kind == z3.Z3_OP_MOD or kind == z3.Z3_OP_UNINTERPRETED or kind in (z3.Z3_OP_TO_INT,):
        return t.decl()(*args)
    return t

def is_zero(t):
    t = lift(t)
    return not to_poly(t)

# ---------------------------------------------------------------- differentiation
def diff(t, leaf):
    """formal derivative; leaf(app) -> derivative term or None when not a leaf of interest"""
    t = lift(t)
    z = z3.RealVal(0)
    if isnum(t): return z
    l = leaf(t)
    if l is not None: return lift(l)
    if not z3.is_app(t): raise Unsupported("diff")
    k = t.decl().kind(); ch = t.children()
    if k == z3.Z3_OP_ADD:
        r = z
        for c in ch: r = add(r, diff(c, leaf))
        return r
    if k == z3.Z3_OP_SUB:
        r = diff(ch[0], leaf)
        for c in ch[1:]: r = sub(r, diff(c, leaf))
        return r
    if k == z3.Z3_OP_UMINUS: return neg(diff(ch[0], leaf))
    if k == z3.Z3_OP_MUL:
        r = z
        for i, c in enumerate(ch):
            d = diff(c, leaf)
            if isnum(d, 0): continue
            for j, e in enumerate(ch):
                if j != i: d = mul(d, e)
            r = add(r, d)
        return r
    if k == z3.Z3_OP_DIV:
        a, b = ch; da, db = diff(a, leaf), diff(b, leaf)
        r = div(da, b) if not isnum(da, 0) else z
        if not isnum(db, 0): r = sub(r, div(mul(a, db), mul(b, b)))
        return r
    if k == z3.Z3_OP_ITE:
        return ite(ch[0], diff(ch[1], leaf), diff(ch[2], leaf))
    if k == z3.Z3_OP_TO_REAL: return z
    if k == z3.Z3_OP_UNINTERPRETED:
        nm = t.decl().name()
        if nm in REDS:
            r = REDS[nm]
            bv = fresh('bvx', IS)
            body = subst(r.body, [(r.bv, bv)])
            if r.kind == 'sum':
                d = diff(body, leaf)
                if isnum(d, 0): return z
                return mkred_term('sum', r.n, bv, d)
            if r.kind == 'prod':
                d = diff(body, leaf)
                if isnum(d, 0): return z
                # sum_k d(k) * prod_{l != k} f(l)
                l = fresh('bvx', IS)
                fl = subst(r.body, [(r.bv, l)])
                rest = mkred_term('prod', r.n, l, ite(eq(l, bv), z3.RealVal(1), fl))
                return mkred_term('sum', r.n, bv, mul(d, rest))
            raise Unsupported(f"diff of {r.kind}")
        if nm == 'abs':
            d = diff(ch[0], leaf)
            return z if isnum(d, 0) else mul(signum(ch[0]), d)
        if nm == 'exp': 
            d = diff(ch[0], leaf)
            return mul(t, d)
        if nm == 'ln':
            d = diff(ch[0], leaf)
            return z if isnum(d, 0) else div(d, ch[0])
        if nm == 'sqrt':
            d = diff(ch[0], leaf)
            return z if isnum(d, 0) else div(d, mul(z3.RealVal(2), t))
        if nm == 'ncdf':
            d = diff(ch[0], leaf)
            return z if isnum(d, 0) else mul(npdf(ch[0]), d)
        if nm == 'npdf':
            d = diff(ch[0], leaf)
            return z if isnum(d, 0) else neg(mul(mul(ch[0], t), d))
        if len(ch) == 0: return z
        if nm in DERIV:
            d = diff(ch[0], leaf)
            return z if isnum(d, 0) else mul(DERIV[nm](*ch), d)
        if any(c.sort() == RS and not isnum(diff(c, leaf), 0) for c in ch): raise Unsupported(f"derivative of {nm}")
        # uninterpreted application that does not mention leaves: constant
        return z
    raise Unsupported(f"diff {t.decl().name()}")

DERIV = {}   # unary function -> its derivative

def npdf(x): return uf('npdf', toreal(x))
def ncdf(x): return uf('ncdf', toreal(x))

# ---------------------------------------------------------------- axioms for uninterpreted symbols
def apps(ts, names):
    out = {}; seen = set(); st = list(ts)
    while st:
        u = st.pop(); i = u.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_app(u):
            if u.decl().kind() == z3.Z3_OP_UNINTERPRETED and u.num_args() > 0 and u.decl().name() in names:
                out.setdefault(u.decl().name(), {})[u.sexpr()] = u
            st.extend(u.children())
    return {k: list(v.values()) for k, v in out.items()}

def fun_axioms(ts, pairwise=True):
    ax = []
    a = apps(ts, {'exp', 'sqrt', 'ln', 'log10', 'ncdf', 'npdf', 'pow10', 'pow', 'sin', 'cos', 'tri', 'abs'})
    if POSFUNS:
        for es in apps(ts, POSFUNS).values():
            for e in es: ax.append(e >= 1)
    for e in a.get('abs', []):
        ax.append(z3.If(e.arg(0) >= 0, e == e.arg(0), e == -e.arg(0)))
    for e in a.get('tri', []):
        ax.append(2 * e == e.arg(0) * (e.arg(0) - 1))
    for e in a.get('exp', []):
        ax.append(e > 0)
        u = e.arg(0)
        ax.append(z3.Implies(u <= 0, e <= 1)); ax.append(z3.Implies(u >= 0, e >= 1))
        ax.append(z3.Implies(u == 0, e == 1)); ax.append(z3.Implies(u < 0, e < 1)); ax.append(e >= 1 + u)
    for e in a.get('sqrt', []):
        u = e.arg(0)
        ax.append(z3.Implies(u >= 0, z3.And(e >= 0, e * e == u)))
        ax.append(z3.Implies(u > 0, e > 0))
    for e in a.get('ln', []):
        u = e.arg(0)
        ax.append(z3.Implies(u >= 1, e >= 0)); ax.append(z3.Implies(z3.And(u > 0, u <= 1), e <= 0))
        ax.append(z3.Implies(u > 0, e <= u - 1)); ax.append(z3.Implies(u == 1, e == 0))
    for e in a.get('log10', []):
        u = e.arg(0)
        ax.append(z3.Implies(u >= 1, e >= 0)); ax.append(z3.Implies(z3.And(u > 0, u <= 1), e <= 0))
    for e in a.get('pow', []):
        ax.append(z3.Implies(e.arg(0) > 0, e > 0))
        if isnum(e.arg(0), 10):     # the decimal logarithm is its inverse
            ax.append(uf('log10', e) == e.arg(1))
            for l in a.get('log10', []): ax.append(z3.Implies(z3.And(l.arg(0) > 0, e.arg(1) == l), e == l.arg(0)))
    for e in a.get('ncdf', []):
        u = e.arg(0)
        ax.append(z3.And(e > 0, e < 1)); ax.append(z3.Implies(u >= 0, e >= z3.Q(1, 2))); ax.append(z3.Implies(u <= 0, e <= z3.Q(1, 2)))
    for e in a.get('npdf', []):
        ax.append(e > 0)
        ax.append(e < z3.Q(2, 5))
    # Mills inequality: x*ncdf(x) + npdf(x) > 0
    if 'ncdf' in a:
        for e in a['ncdf']:
            u = e.arg(0)
            ax.append(u * e + npdf(u) > 0)
            if 'npdf' not in a: ax.append(npdf(u) > 0)
    if pairwise:
        for nm in ('exp', 'ncdf'):
            l = a.get(nm, [])
            for x, y in itertools.combinations(l[:6], 2):
                ax.append(z3.Implies(x.arg(0) < y.arg(0), x < y)); ax.append(z3.Implies(y.arg(0) < x.arg(0), y < x))
                ax.append(z3.Implies(x.arg(0) == y.arg(0), x == y))
        for nm in ('ln', 'log10'):
            l = a.get(nm, [])
            for x, y in itertools.combinations(l[:6], 2):
                ax.append(z3.Implies(z3.And(0 < x.arg(0), x.arg(0) < y.arg(0)), x < y))
                ax.append(z3.Implies(z3.And(0 < y.arg(0), y.arg(0) < x.arg(0)), y < x))
    return ax

def red_axioms(ts, depth=3, maxpairs=40):
    """congruence / sign axioms for the reductions occurring in ts (instantiated with skolem indices)"""
    ax = []
    done = set(); frontier = list(ts)
    handled = {}
    for _ in range(depth):
        new = []
        for t in frontier:
            for r in reds_of(t):
                nm = r.sym.decl().name()
                if nm in handled: continue
                handled[nm] = r
                new.append(r)
        frontier = []
        rs = list(handled.values())
        for r in new:
            sk = fresh('sk', IS)
            b = red_at(r, sk)
            rng = z3.And(sk >= 0, sk < r.n)
            if r.kind in ('sum', 'isum', 'prod'):
                ax.append(z3.Implies(r.n <= 0, r.sym == (1 if r.kind == 'prod' else 0)))
            if r.kind in ('sum', 'isum'):
                ax.append(z3.Implies(r.sym < 0, z3.And(rng, b < 0)))
                sk2 = fresh('sk', IS); b2 = red_at(r, sk2); rng2 = z3.And(sk2 >= 0, sk2 < r.n)
                ax.append(z3.Implies(r.sym > 0, z3.And(rng2, b2 > 0)))
                frontier += [b, b2]
            elif r.kind == 'prod':
                ax.append(z3.Implies(r.sym <= 0, z3.And(rng, b <= 0)))
                sk2 = fresh('sk', IS); b2 = red_at(r, sk2); rng2 = z3.And(sk2 >= 0, sk2 < r.n)
                ax.append(z3.Implies(r.sym > 1, z3.And(rng2, z3.Or(b2 > 1, b2 < 0))))
                sk3 = fresh('sk', IS); b3 = red_at(r, sk3); rng3 = z3.And(sk3 >= 0, sk3 < r.n)
                ax.append(z3.Implies(r.sym < 0, z3.And(rng3, b3 < 0)))
                frontier += [b, b2, b3]
            elif r.kind == 'and':
                ax.append(z3.Implies(z3.Not(r.sym), z3.And(rng, z3.Not(b)))); frontier.append(b)
            elif r.kind == 'or':
                ax.append(z3.Implies(r.sym, z3.And(rng, b))); frontier.append(b)
            elif r.kind in ('min', 'max'):
                ax.append(z3.Implies(r.n > 0, z3.And(rng, r.sym == b))); frontier.append(b)
        for r, q in itertools.combinations(rs, 2):
            if r.kind != q.kind: continue
            key = (r.sym.decl().name(), q.sym.decl().name())
            if key in done: continue
            done.add(key)
            if len(done) > maxpairs: break
            sk = fresh('sk', IS)
            b1, b2 = red_at(r, sk), red_at(q, sk)
            ax.append(z3.Implies(r.sym != q.sym, z3.Or(r.n != q.n, z3.And(sk >= 0, sk < r.n, b1 != b2))))
            frontier += [b1, b2]
            if r.kind in ('sum', 'isum') and r.body.eq(q.body) and not r.n.eq(q.n):
                # same summand, different bounds: S(m) >= S(n) + body(n) for n < m when the summand is >= 0
                for a, b in ((r, q), (q, r)):
                    sk = fresh('sk', IS)
                    ax.append(z3.Implies(z3.And(a.n >= 0, a.n < b.n), z3.Or(z3.And(sk >= 0, sk < b.n, red_at(a, sk) < 0), b.sym >= a.sym + red_at(a, a.n))))
                    ax.append(z3.Implies(z3.And(a.n >= 0, b.n == a.n + 1), b.sym == a.sym + red_at(a, a.n)))
                    ax.append(z3.Implies(a.n <= 0, a.sym == 0))
                    frontier += [red_at(a, sk), red_at(a, a.n)]
                continue
            if r.kind in ('sum', 'isum'):
                sk = fresh('sk', IS)
                b1, b2 = red_at(r, sk), red_at(q, sk)
                ax.append(z3.Implies(z3.And(r.n == q.n, r.sym < q.sym), z3.And(sk >= 0, sk < r.n, b1 < b2)))
                sk = fresh('sk', IS)
                b1, b2 = red_at(r, sk), red_at(q, sk)
                ax.append(z3.Implies(z3.And(r.n == q.n, r.sym > q.sym), z3.And(sk >= 0, sk < r.n, b1 > b2)))
        if not frontier: break
    # universal instances for and/or/min/max at all int terms of interest are given by the caller
    return ax

# ---------------------------------------------------------------- prover
STATS = {'queries': 0, 'time': 0.0}

def check_sat(fs, timeout=20000, tactic=None):
    s = z3.Solver()
    s.set('timeout', timeout)
    for f in fs: s.add(f)
    t = time.time()
    r = s.check()
    STATS['queries'] += 1; STATS['time'] += time.time() - t
    return r, s

def _split_ite(t):
    seen = set(); st = [t]
    while st:
        u = st.pop(); i = u.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_app(u):
            if u.decl().kind() == z3.Z3_OP_ITE: return u.arg(0)
            st.extend(u.children())
        
    return None
