"""Variable types of mixed-integer problems."""
from rvc.vc import *
from .surr import *
M = 'ego::gpmix::mixint'
I = z3.IntVal
FLO, FHI, ILO, IHI, SIZ, LEN = [z3.Function(n, IS, s) for n, s in (('flo', RS), ('fhi', RS), ('ilo', IS), ('ihi', IS), ('siz', IS), ('len', IS))]
VAL = z3.Function('val', IS, IS, RS)
T.POSFUNS |= {'siz', 'len'}      # numbers of levels and of listed values (outside the list of types they are of no account)
T.TAGS[:] = ['is_enum', 'is_ord', 'is_int']
ENUM, ORD, INT = [z3.Function(n, IS, BS) for n in T.TAGS]

def xtypes(v, n):
    """list of n variable types of any kinds in any order"""
    def at(i):
        e, o, t = ENUM(i), ORD(i), INT(i)
        return SymEn([(band(bnot(e), bnot(o), bnot(t)), En('Float', [FLO(i), FHI(i)])), (band(bnot(e), bnot(o), t), En('Int', [ILO(i), IHI(i)])),
                      (band(bnot(e), o), En('Ord', [Arr([LEN(i)], lambda k: VAL(i, k), 'vec')])), (e, En('Enum', [SIZ(i)]))])
    v.forall(lambda i: band(ge(SIZ(i), 1), ge(LEN(i), 1)))
    return Arr([n], at, 'vec')
def width(i): return ite(ENUM(i), SIZ(i), I(1))
def off(i): return mkred('isum', i, width)
IDX = z3.Function('idx', IS, IS, IS)


def grow_lemma(v, n):
    """every variable takes at least one column, so column offsets are at least the index (induction)"""
    m = v.ix('m', n)
    v.ensure('lemma: column offset at least the index (start)', eq(off(I(0)), I(0)))
    v.ensure('lemma: column offset at least the index (step)', implies(ge(off(m), m), ge(off(add(m, 1)), add(m, 1))))
    v.forall(lambda i: implies(band(ge(i, 0), le(i, n)), ge(off(i), i)))

def level(t, i):
    """the integer behind a value known to be a level index when variable i is categorical"""
    t = z3.simplify(z3.substitute(canon(lift(t)), (ENUM(i), z3.BoolVal(True))))
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_TO_REAL: return t.arg(0)
    if isnum(t): return I(int(numval(t)))
    raise Unsupported(f"not a level index: {str(t)[:80]}")

def witness(p, t, i):
    """the level chosen by the code for categorical variable i (an index found in the value it computes)"""
    g = p.v.prover.resolve_segs(list(p.p.pc) + [ENUM(i)], eq(t, R(1)), list(p.v.ip.univ))
    g = z3.simplify(z3.substitute(canon(g), (ENUM(i), z3.BoolVal(True))))
    seen = set(); st = [g]
    while st:
        u = st.pop()
        if u.get_id() in seen: continue
        seen.add(u.get_id())
        if z3.is_app(u):
            if u.sort() == IS and u.num_args() and u.decl().kind() == z3.Z3_OP_UNINTERPRETED and '@' in u.decl().name(): return u
            st.extend(u.children())
    raise Unsupported('no level found in the value')
