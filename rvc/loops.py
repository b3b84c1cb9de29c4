"""Loop rules: exact summaries (prefix sums, pointwise writes, appends), first-exit rule,
and invariant templates checked for initialisation and preservation."""
import z3
from . import terms as T
from .terms import *
from .values import *

UNROLL = 8

def opaque_state(ip, v, name):
    """fresh unknown of the same shape as v"""
    if isinstance(v, It) or isinstance(v, Clo) or isinstance(v, (Opq, Rng, str)) or v is None: return v
    if isinstance(v, Place): return v
    if isinstance(v, (En, SymEn)):
        # unknown variant among those seen is not representable: keep (caller must check it is unchanged)
        raise Unsupported(f"loop modifies enum state {v}")
    return opaque_like(v, name)

def summarise(ip, n, run, node=None):
    from .interp import BreakEx, ContEx, RetEx, PanicEx, Infeasible
    n = z3.simplify(lift(n)) if not isnum(n) else lift(n)
    if isnum(n) and numval(n) <= UNROLL:
        for i in range(max(0, int(numval(n)))):
            try: run(z3.IntVal(i))
            except ContEx as c:
                if c.label: raise
            except BreakEx as b:
                if b.label: raise
                break
        return
    if isnum(n) and numval(n) <= 300 and not ip.quiet and False: return
    base = dict(ip.store)
    ix = fresh('ix', IS)
    rng = [ge(ix, 0), lt(ix, n)]
    lid = next(T._cnt)

    def body(i):
        try: run(i)
        except ContEx as c:
            if c.label: raise

    def nested(store, i, quiet):
        s, pc, l, q = ip.store, ip.pc, ip.lz, ip.quiet
        ip.store = dict(store); ip.pc = list(pc) + rng; ip.lz = l + [(lid, [i])]; ip.quiet = q + (1 if quiet else 0)
        sq = ip.seq; ip.seq = {}
        try: return ip.explore(lambda: body(i)), len(pc) + 2
        finally: ip.store, ip.pc, ip.lz, ip.quiet, ip.seq = s, pc, l, q, sq

    # dry run: which cells are modified, do we leave the loop early
    from .interp import SCHEMAS
    known = set(SCHEMAS)
    def forget():
        for k in set(SCHEMAS) - known: del SCHEMAS[k]
    def relate(final):
        """facts recorded while the state was unknown: the state at iteration i is final(i)"""
        if not havoced: return
        vals = {c: final(c, ix) for c in havoced}
        for k in set(SCHEMAS) - known:
            for slot, (idx, f) in list(SCHEMAS[k].items()):
                if not any(ix.eq(i) for i in idx): 
                    continue
                if callable(f): SCHEMAS[k][slot] = (idx, lambda t, f=f: subst_syms(ip, lift(f(t)), vals, havoced))
                else: SCHEMAS[k][slot] = (idx, subst_syms(ip, lift(f), vals, havoced))
    ps, _ = nested(base, ix, True)
    mod = set()
    havoced = {}
    # iterate: havoc what is modified until the modified set is stable
    for rounds in range(4):
        mod2 = set()
        last = {}
        for p in ps:
            if p.kind == 'panic': continue
            for c in base:
                if p.store.get(c) is not base_or(havoced, base, c):
                    mod2.add(c)
                    if c not in last: last[c] = p.store.get(c)
        new = mod2 - set(havoced)
        for c in list(havoced):
            pass
        if not new and rounds > 0: break
        for c in new:
            probe = last[c]
            if isinstance(probe, Place): raise Unsupported("loop rebinds a reference")
            try: h = opaque_state(ip, shape_of(base[c], probe), f"st{c}")
            except Unsupported:
                if not (isinstance(base[c], Arr) and base[c].rank == 1 and isinstance(probe, Arr) and probe.rank == 1): raise
                h = OwnArr(base[c], ix)
            havoced[c] = h
        mod |= new
        st = dict(base); st.update(havoced)
        if not mod:
            break
        forget()
        ps, _ = nested(st, ix, True)
    st = dict(base); st.update(havoced)
    exits = [p for p in ps if p.kind in ('break', 'ret', 'cont')]
    normal = [p for p in ps if p.kind == 'val']
    if not mod and not exits:
        nested(base, ix, False)   # obligations
        return
    if exits:
        return first_exit(ip, n, run, body, nested, base, st, havoced, ix, ps, normal, exits, node, relate)
    final = solve(ip, n, ix, base, havoced, normal, node)
    relate(final)
    # obligations with the state at iteration ix
    st2 = dict(base)
    for c in mod: st2[c] = final(c, ix)
    nested(st2, ix, False)
    for c in mod: ip.store[c] = final(c, n)

def base_or(h, base, c): return h.get(c, base.get(c))

def shape_of(old, new):
    """shape for the havoc value: take element kinds from the new value, dims from the old one"""
    if isinstance(old, Arr) and isinstance(new, Arr) and old.rank == new.rank:
        dims = list(old.dims)
        if not all(dim_same(a, b) for a, b in zip(old.dims, new.dims)):
            dims = [a if dim_same(a, b) else fresh('len', IS) for a, b in zip(old.dims, new.dims)]
        return Arr(dims, new.fn, old.kind)
    return new if (is_scalar(new) and is_scalar(old)) else old

def dim_same(a, b): return a.eq(b) or isnum(z3.simplify(a - b), 0)

def symbols_of(v):
    """names of the uninterpreted symbols standing for a havoced value"""
    out = set()
    if isinstance(v, OwnArr): return out
    if is_scalar(v): return {lift(v).decl().name()}
    if isinstance(v, Arr):
        idx = [z3.Int(f'pp!{k}') for k in range(v.rank)]
        out |= symbols_of(deref(v.at(*idx)))
        for d in v.dims:
            if z3.is_const(d) and d.decl().name().startswith('len!'): out.add(d.decl().name())
        return out
    if isinstance(v, Tup):
        for x in v.es: out |= symbols_of(x)
    if isinstance(v, St):
        for x in v.f.values(): out |= symbols_of(x)
    return out

_ds = {}
def decl_names(t):
    """all uninterpreted declarations in t, through reduction bodies"""
    s = set(); seen = set(); st = [lift(t)]
    while st:
        u = st.pop(); i = u.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_app(u):
            if u.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                nm = u.decl().name(); s.add(nm)
                r = REDS.get(nm)
                if r: st.append(r.body); st.append(r.n)
            st.extend(u.children())
    return s

def merge_paths(ip, normal, c):
    v = normal[-1].store[c]
    for p in reversed(normal[:-1]): v = ip.mergev(p.cond, p.store[c], v)
    return v

def solve(ip, n, ix, base, havoced, normal, node):
    """returns final(cell, m): value of the cell after m iterations"""
    if not normal: raise Unsupported("loop body never completes")
    allsyms = set(); symcell = {}
    for c, h in havoced.items():
        for s in symbols_of(h): allsyms.add(s); symcell[s] = c
    newv = {c: merge_paths(ip, normal, c) for c in havoced}
    closed = {}          # cell -> fn(m)
    pending = dict(newv)
    def resolved_subst(t, m):
        """replace havoc symbols of closed cells by their value after m iterations"""
        return subst_syms(ip, t, {c: closed[c](m) for c in closed}, havoced)
    progress = True
    while pending and progress:
        progress = False
        for c in list(pending):
            f = try_close(ip, n, ix, base[c], havoced[c], pending[c], allsyms, closed, havoced, symcell)
            if f is not None:
                closed[c] = f; del pending[c]; progress = True
    if pending and (fs := selection(ip, n, ix, base, havoced, pending, closed, allsyms, normal, node)) is not None:
        closed.update(fs); pending = {}
    if pending:
        fs = by_invariant(ip, n, ix, base, havoced, pending, closed, newv, node)
        if fs is None:
            raise Unsupported(f"loop without summary: {[type(base[c]).__name__ for c in pending]}")
        closed.update(fs)
    return lambda c, m: closed[c](m)

def selection(ip, n, ix, base, havoced, pending, closed, allsyms, normal, node):
    """state := f(i) whenever C(state, i): the final state is the initial one or f(w) for a witness w,
    and when C behaves as a strict preference (side conditions proved here) nothing is preferred to it"""
    cells = list(pending)
    own = set()
    for c in cells: own |= symbols_of(havoced[c])
    hit = []; cond = []
    for p in normal:
        same = [p.store[c] is havoced[c] for c in cells]
        if all(same): continue
        if any(same): return None
        hit.append(p); cond.append(p.cond)
    if not hit or len(hit) > 4: return None
    C0 = bor(*cond)
    vals = {}
    for c in cells:
        v = hit[-1].store[c]
        for p in reversed(hit[:-1]): v = ip.mergev(p.cond, p.store[c], v)
        vals[c] = v
    others = {c: (lambda m, c=c: closed[c](m)) for c in closed}
    def at(v, i): return mapv(subst_syms(ip, v, {c: g(i) for c, g in others.items()}, havoced) if others else v, lambda t: subst(t, [(ix, i)]))
    def f(i): return {c: at(vals[c], i) for c in cells}
    try:
        for c in cells:
            leaves = []
            mapv_force(vals[c], lambda t: (leaves.append(lift(t)), t)[1])
            if any(decl_names(t) & own for t in leaves): return None
    except Unsupported: return None
    except Exception: return None
    hv = {c: havoced[c] for c in cells}
    def C(state, i): return lift(at(subst_syms(ip, C0, state, havoced), i))
    P = ip.prover
    i, t, a = fresh('ix', IS), fresh('ix', IS), fresh('ix', IS)
    inr = lambda k: band(ge(k, 0), lt(k, n))
    def prv(hyp, goal): return P.light(list(ip.pc) + hyp, goal, list(ip.univ)) or P.prove(list(ip.pc) + hyp, goal, list(ip.univ), timeout=1500).status == 'proved'
    fi, fa, init = f(i), f(a), {c: base[c] for c in cells}
    R = [inr(i), inr(t), inr(a)]
    ok = all(prv(R + [bnot(C(s, t)), C(s, i)], bnot(C(fi, t))) for s in (init, fa)) and prv([inr(i)], bnot(C(fi, i)))
    ok3 = ok and prv(R + [C(init, a), C(fa, i)], C(init, i))
    ok4 = ok and all(prv(R + [C(s, i), bnot(C(s, t)), C(init, t)], C(f(t), i)) for s in (init, fa))
    memo = {}
    if not ok: ip.weak = True
    def state(m):
        m = lift(m); k = m.get_id()
        if k in memo: return memo[k][1]
        w, ow = ip.sk('selected', IS, node)
        fw = f(w); some = ge(w, 0)
        if m.eq(n) and not ip.lz and not ip.quiet:
            st = fw if ip.branch(some) else init
        else: st = {c: ip.mergev(some, fw[c], base[c]) for c in cells}
        ip.fact(ow, 'r', band(ge(w, -1), lt(w, m), implies(le(m, 0), eq(w, -1))))
        if ok:
            ip.fact(ow, 'b', lambda t: implies(band(ge(t, 0), lt(t, m)), band(implies(some, bnot(C(fw, t))), implies(bnot(some), bnot(C(init, t))))))
            ip.inv_used = getattr(ip, 'inv_used', []) + ['nothing preferred to the selected element']
        if ok3: ip.fact(ow, 'i', implies(some, C(init, w)))
        if ok4: ip.fact(ow, 'f', lambda t: implies(band(ge(t, 0), lt(t, w), C(init, t)), C(f(t), w)))
        memo[k] = (m, st)
        return st
    return {c: (lambda m, c=c: state(m)[c]) for c in cells}

def subst_syms(ip, v, vals, havoced):
    """replace the symbols of havoced cells by given values inside value v"""
    consts = []; funs = {}
    def collect(h, x):
        if isinstance(h, OwnArr): return
        if is_scalar(h): consts.append((lift(h), lift(x) if lift(x).sort() == lift(h).sort() else toreal(x)))
        elif isinstance(h, Arr):
            x = deref(x)
            if h.meta is not None: funs[h.meta.name()] = lambda *i, x=x: deref(x.at(*i))
            else:
                idx = [z3.Int(f'pp!{k}') for k in range(h.rank)]
                e = deref(h.at(*idx))
                if isinstance(e, Tup):
                    for j, comp in enumerate(e.es):
                        if is_scalar(comp): funs[lift(comp).decl().name()] = lambda *i, x=x, j=j: deref(deref(x.at(*i)).es[j])
                        else: raise Unsupported("nested havoc")
                elif isinstance(e, Arr):
                    ij = [z3.Int(f'qq!{k}') for k in range(e.rank)]
                    nm = lift(e.at(*ij)).decl().name(); r = h.rank
                    funs[nm] = lambda *i, x=x, r=r: deref(deref(x.at(*i[:r])).at(*i[r:]))
                else: raise Unsupported("nested havoc")
            for a, b in zip(h.dims, x.dims):
                if z3.is_const(a) and a.decl().name().startswith('len!'): consts.append((a, b))
        elif isinstance(h, Tup):
            for a, b in zip(h.es, deref(x).es): collect(a, deref(b))
        elif isinstance(h, St):
            for k in h.f: collect(h.f[k], deref(deref(x).f[k]))
    for c, x in vals.items(): collect(havoced[c], x)
    def f(t): return subst_funs(subst(t, consts) if consts else t, funs)
    return mapv(v, f)

def subst_funs(t, funs):
    """replace applications f(idx) by funs[f](idx), through reductions"""
    t = lift(t)
    if not funs: return t
    names = set(funs)
    if not (decl_names(t) & names): return t
    memo = {}
    def go(u):
        i = u.get_id()
        if i in memo: return memo[i][1]
        if not z3.is_app(u): r = u
        elif u.num_args() == 0:
            r = u
            nm = u.decl().name()
            if nm in REDS and (decl_names(u) & names):
                rd = REDS[nm]
                bv = fresh('bvx', IS)
                r = mkred_term(rd.kind, go(rd.n), bv, go(subst(rd.body, [(rd.bv, bv)])))
        else:
            ch = [go(x) for x in u.children()]
            if u.decl().kind() == z3.Z3_OP_UNINTERPRETED and u.decl().name() in funs:
                r = lift(funs[u.decl().name()](*ch))
                if r.sort() != u.sort(): r = toreal(r)
            elif u.decl().kind() == z3.Z3_OP_ITE: r = ite(ch[0], ch[1], ch[2])
            else: r = u.decl()(*ch)
        memo[i] = (u, r)      # keeps u alive: ids are reused
        return r
    return go(t)

def delta(v, acc):
    """v - acc when v is acc plus something free of acc (through ite); None otherwise"""
    v = lift(v)
    if v.eq(acc): return mknum(Fraction(0), acc.sort())
    nm = acc.decl().name()
    if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE and nm in decl_names(v):
        if nm in decl_names(v.arg(0)): return None
        a, b = delta(v.arg(1), acc), delta(v.arg(2), acc)
        if a is None or b is None: return None
        return ite(v.arg(0), a, b)
    # polynomial with coefficient exactly one
    d = canon(sub(v, acc))
    if nm in decl_names(d):
        # additive context with an ite inside: distribute
        if z3.is_add(v):
            tot = mknum(Fraction(0), acc.sort()); found = False
            for c in v.children():
                if nm in decl_names(c):
                    if found: return None
                    x = delta(c, acc)
                    if x is None: return None
                    found = True; tot = add(tot, x)
                else: tot = add(tot, c)
            return tot if found else None
        return None
    return d

def factor(v, acc):
    if v.eq(acc): return mknum(Fraction(1), acc.sort())
    if isnum(v, 0): return v
    nm = acc.decl().name()
    if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE and nm in decl_names(v):
        if nm in decl_names(v.arg(0)): return None
        a, b = factor(v.arg(1), acc), factor(v.arg(2), acc)
        if a is None or b is None: return None
        return ite(v.arg(0), a, b)
    if z3.is_mul(v):
        tot = None; rest = mknum(Fraction(1), acc.sort())
        for c in v.children():
            if nm in decl_names(c):
                if tot is not None: return None
                tot = factor(c, acc)
                if tot is None: return None
            else: rest = mul(rest, c)
        return mul(rest, tot) if tot is not None else None
    if z3.is_div(v) and nm not in decl_names(v.arg(1)):
        a = factor(v.arg(0), acc)
        return None if a is None else div(a, v.arg(1))
    return None

def own_elements(ip, n, ix, init, h, v, allsyms, closed):
    """iteration i rewrites element i only, reading no other element"""
    if not isinstance(v, Arr) or v.rank != 1 or not dim_same(v.dims[0], init.dims[0]): return None
    j = fresh('ix', IS)
    h.probe, h.kept = j, Kept()
    try: r = deref(v.at(j))
    finally: h.probe = None
    if r is not h.kept: return None
    for c in r.conds:
        cs = flat_and(c)
        if not any(z3.is_eq(x) and same(x.arg(0), j, x.arg(1), ix) for x in cs): return None
    def fn_m(m):
        el = deref(v.at(ix))
        def at(j2):
            x = mapv(el, lambda t: subst(t, [(ix, j2)]))
            return x if lift(m).eq(lift(init.dims[0])) else merge2(lt(j2, m), x, init.at(j2))
        return Arr(init.dims, at, init.kind)
    return fn_m
def same(a, j, b, ix): return a.eq(j) and b.eq(ix) or a.eq(ix) and b.eq(j)

def try_close(ip, n, ix, init, h, v, allsyms, closed, havoced, symcell):
    if isinstance(h, OwnArr):
        return own_elements(ip, n, ix, init, h, v, allsyms, closed) if len(havoced) == 1 else None
    closed = dict(closed)
    others_closed = set()
    for c in closed: others_closed |= symbols_of(havoced[c])
    if is_scalar(h):
        h = lift(h); v = lift(v); init = lift(init)
        if v.sort() != h.sort(): v = toreal(v)
        if init.sort() != h.sort(): init = toreal(init)
        free = decl_names(v) & allsyms - {h.decl().name()}
        if free - others_closed: return None
        def cl(t, m): return subst_syms(ip, t, {c: closed[c](m) for c in closed}, havoced)
        if v.eq(h): return lambda m: init
        if h.sort() == BS:
            # flag &= e / flag |= e / set once
            if h.decl().name() not in decl_names(v):
                e = lambda i: subst(cl(v, i), [(ix, i)])
                return lambda m: ite(gt(m, 0), e(sub(m, 1)), init)
            t1 = z3.simplify(z3.substitute(v, (h, z3.BoolVal(True)))); t0 = z3.simplify(z3.substitute(v, (h, z3.BoolVal(False))))
            if z3.is_false(t0):
                return lambda m: band(init, mkred('and', m, lambda i: subst(cl(t1, i), [(ix, i)])))
            if z3.is_true(t1):
                return lambda m: bor(init, mkred('or', m, lambda i: subst(cl(t0, i), [(ix, i)])))
            return None
        d = delta(v, h)
        if d is not None and h.decl().name() not in decl_names(d):
            kind = 'isum' if h.sort() == IS else 'sum'
            ce = counted_except(d, ix) if kind == 'isum' and not closed else None
            if ce is not None: return lambda m: add(init, ce(lift(m)))
            return lambda m: add(init, mkred(kind, m, lambda i: subst(cl(d, i), [(ix, i)])))
        fa = factor(v, h)
        if fa is not None and h.decl().name() not in decl_names(fa):
            if h.sort() == IS: return None
            return lambda m: mul(init, mkred('prod', m, lambda i: subst(cl(fa, i), [(ix, i)])))
        if h.decl().name() not in decl_names(v):
            e = lambda i: subst(cl(v, i), [(ix, i)])
            return lambda m: ite(gt(m, 0), e(sub(m, 1)), init)
        # running minimum / maximum
        mm = minmax(v, h)
        if mm is not None:
            kind, e = mm
            op = minr if kind == 'min' else maxr
            return lambda m: ite(gt(m, 0), op(init, mkred(kind, m, lambda i: subst(cl(e, i), [(ix, i)]))), init)
        return None
    if isinstance(h, Arr): return close_array(ip, n, ix, init, h, v, allsyms, closed, havoced, others_closed)
    if isinstance(h, Tup):
        if all(is_scalar(deref(x)) for x in h.es) or True:
            fs = []
            for a, b, c in zip(deref(init).es, h.es, deref(v).es):
                f = try_close(ip, n, ix, deref(a), b, deref(c), allsyms, closed, havoced, symcell)
                if f is None: return None
                fs.append(f)
            return lambda m: Tup([f(m) for f in fs])
    if isinstance(h, St):
        fs = {}
        for k in h.f:
            a, c = deref(deref(init).f[k]), deref(deref(v).f[k])
            b = h.f[k]
            if c is b: fs[k] = (lambda m, a=a: a); continue
            f = try_close(ip, n, ix, a, b, c, allsyms, closed, havoced, symcell)
            if f is None: return None
            fs[k] = f
        return lambda m: St(h.name, {k: fs[k](m) for k in fs})
    return None

def minmax(v, h):
    """v == ite(e < h, e, h) and variants"""
    if not (z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE): return None
    c, a, b = v.children()
    nm = h.decl().name()
    if a.eq(h): e, keep = b, True
    elif b.eq(h): e, keep = a, False
    else: return None
    if nm in decl_names(e): return None
    def prv(f):
        r, _ = check_sat([bnot(f)], 500)
        return r == z3.unsat
    for kind, op in (('min', minr), ('max', maxr)):
        if prv(v == op(h, e)): return kind, e
    return None

def close_array(ip, n, ix, init, h, v, allsyms, closed, havoced, others_closed):
    if not isinstance(v, Arr) or not isinstance(init, Arr): return None
    grow = [k for k, (a, b) in enumerate(zip(h.dims, v.dims)) if not dim_same(a, b)]
    own = symbols_of(h)
    def cl(val, m): return subst_syms(ip, val, {c: closed[c](m) for c in closed}, havoced) if closed else val
    js = [fresh('ix', IS) for _ in h.dims]
    el = deref(v.at(*js)); hel = deref(h.at(*js)); 
    if grow:
        return close_push(ip, n, ix, init, h, v, allsyms, own, closed, havoced, others_closed)
    if not is_scalar(el):
        if isinstance(el, Tup):
            parts = []
            for k in range(len(el.es)):
                hk = Arr(h.dims, lambda *i, k=k: deref(deref(h.at(*i)).es[k]), h.kind)
                vk = Arr(v.dims, lambda *i, k=k: deref(deref(v.at(*i)).es[k]), v.kind)
                ik = Arr(init.dims, lambda *i, k=k: deref(deref(init.at(*i)).es[k]), init.kind)
                f = close_array(ip, n, ix, ik, hk, vk, allsyms, closed, havoced, others_closed)
                if f is None: return None
                parts.append(f)
            return lambda m: Arr(h.dims, lambda *i: Tup([p(m).at(*i) for p in parts]), h.kind)
        return None
    el, hel = lift(el), lift(hel)
    el = align_guarded(el, own, hel, js)
    free = decl_names(el) & allsyms - own
    if free - others_closed: return None
    def ini(idx):
        x = lift(deref(init.at(*idx)))
        return toreal(x) if hel.sort() == RS and x.sort() == IS else x
    if hel.sort() == RS and el.sort() == IS: el = toreal(el)
    if el.eq(hel): return lambda m: init
    # does the new element only depend on the old element at the same index?
    if not own_only_at(el, own, hel): 
        r = own_slice(ip, n, ix, init, js, el, hel, own, ini, cl, closed) or permuted(ip, n, ix, init, js, el, hel, own, ini)
        if r is not None: return r
        import os
        if os.environ.get('DBGSEG'):
            from .vc import infix
            print('OWN', infix(el)[:3000], infix(hel))
        return None
    acc = fresh('acc', hel.sort())
    t = z3.substitute(el, (hel, acc))
    if decl_names(t) & own: return None
    # strip the write guard
    guard, val = strip_guard(t, acc)     # t == ite(guard, val, acc)
    if guard is None: return lambda m: init
    dep_acc = acc.decl().name() in decl_names(val)
    s = solve_guard(guard, ix)
    def inst(t, i, idx, m): return subst(cl(subst(t, []), i) if closed else t, [(ix, i)] + list(zip(js, idx)))
    if s is not None:
        # at most one iteration writes the element: iteration s(js)
        def fn_m(m):
            def at(*idx):
                i = subst(s, list(zip(js, idx)))
                g = band(ge(i, 0), lt(i, m), inst(guard, i, idx, m))
                g = z3.simplify(g) if not is_scalar(g) else g
                x = z3.substitute(inst(val, i, idx, m), (acc, ini(idx))) if dep_acc else inst(val, i, idx, m)
                return ite(g, x, ini(idx))
            return Arr(init.dims, at, init.kind)
        return fn_m
    if ix.decl().name() not in decl_names(guard) and not dep_acc and not (decl_names(guard) & others_closed):
        # overwritten at every iteration: last one wins
        def fn_m(m):
            def at(*idx):
                i = sub(m, 1)
                return ite(band(gt(m, 0), inst(guard, i, idx, m)), inst(val, i, idx, m), ini(idx))
            return Arr(init.dims, at, init.kind)
        return fn_m
    d = delta(t, acc)
    if d is not None and acc.decl().name() not in decl_names(d):
        kind = 'isum' if hel.sort() == IS else 'sum'
        return lambda m: Arr(init.dims, lambda *idx: add(ini(idx), mkred(kind, m, lambda i: inst(d, i, idx, m))), init.kind)
    fa = factor(t, acc)
    if fa is not None and acc.decl().name() not in decl_names(fa):
        return lambda m: Arr(init.dims, lambda *idx: mul(ini(idx), mkred('prod', m, lambda i: inst(fa, i, idx, m))), init.kind)
    # segment writes: guard says lo(ix) <= j < hi(ix)
    seg = segment_write(ip, n, ix, init, h, js, guard, val, acc, dep_acc, inst, ini, cl)
    return seg

def align_guarded(t, own, hel, js):
    """in ite(j == e, a, b): inside a, the old element at index e is the old element at index j"""
    def go(u, eqs):
        if not z3.is_app(u): return u
        if u.decl().kind() == z3.Z3_OP_ITE:
            c = u.arg(0)
            neg_ = z3.is_not(c)
            es = [x for x in flat_and(c.arg(0) if neg_ else c) if z3.is_eq(x) and x.arg(0).sort() == IS]
            pos = eqs + es
            if neg_:
                return ite(go(c, eqs), go(u.arg(1), eqs), go(u.arg(2), pos if len(flat_and(c.arg(0))) == len(es) else eqs))
            return ite(go(c, eqs), go(u.arg(1), pos), go(u.arg(2), eqs))
        if u.decl().kind() == z3.Z3_OP_UNINTERPRETED and u.decl().name() in own and u.num_args() == hel.num_args() and not u.eq(hel):
            if u.decl().eq(hel.decl()) and all(same_under(a, b, eqs) for a, b in zip(u.children(), hel.children())): return hel
        if not (decl_names(u) & own): return u
        if u.num_args() == 0: return u
        return u.decl()(*[go(x, eqs) for x in u.children()])
    if not z3.is_app(hel) or hel.num_args() == 0 or not (decl_names(t) & own): return t
    return go(t, [])

def same_under(a, b, eqs):
    if a.eq(b): return True
    d = z3.simplify(a - b)
    if isnum(d, 0): return True
    for e in eqs:
        x, y = e.arg(0), e.arg(1)
        f = z3.simplify(x - y)
        if isnum(z3.simplify(d - f), 0) or isnum(z3.simplify(d + f), 0): return True
    return False

def own_only_at(el, own, hel):
    seen = set(); st = [el]
    while st:
        u = st.pop(); i = u.get_id()
        if i in seen: continue
        seen.add(i)
        if not z3.is_app(u): continue
        if u.eq(hel): continue
        if u.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            nm = u.decl().name()
            if nm in own: return False
            if nm in REDS and (decl_names(u) & own): return False
        st.extend(u.children())
    return True

def counted_except(d, ix):
    """number of iterations before m other than a and b, for a body counting [i != a and i != b]"""
    if not (z3.is_app(d) and d.decl().kind() == z3.Z3_OP_ITE): return None
    c, a, b = d.children(); c = z3.simplify(c)
    if isnum(a, 0) and isnum(b, 1): c = z3.simplify(z3.Not(c))
    elif not (isnum(a, 1) and isnum(b, 0)): return None
    c = z3.simplify(c, elim_and=False); pts = []
    for g in flat_and(c):
        if z3.is_not(g) and z3.is_or(g.arg(0)): gs = [z3.Not(x) for x in g.arg(0).children()]
        else: gs = [g]
        for x in gs:
            if not (z3.is_not(x) and z3.is_eq(x.arg(0)) and x.arg(0).arg(0).sort() == IS): return None
            s = solve_lin(x.arg(0).arg(0), x.arg(0).arg(1), ix)
            if s is None or depends(s, ix): return None
            pts.append(s)
    if not 1 <= len(pts) <= 2: return None
    def count(m):
        hit = lambda p: ite(band(ge(p, 0), lt(p, m)), z3.IntVal(1), z3.IntVal(0))
        r = sub(m, hit(pts[0]))
        if len(pts) == 2: r = sub(r, ite(eq(pts[0], pts[1]), z3.IntVal(0), hit(pts[1])))
        return ite(gt(m, 0), r, z3.IntVal(0))
    return count

def own_apps(t, own):
    """applications of the carried array's symbol in t; None when one is inside a reduction"""
    out = []; seen = set(); st = [t]
    while st:
        u = st.pop(); i = u.get_id()
        if i in seen: continue
        seen.add(i)
        if not z3.is_app(u): return None
        if u.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            nm = u.decl().name()
            if nm in REDS and (decl_names(u) & own): return None
            if nm in own: out.append(u)
        st.extend(u.children())
    return out

def own_slice(ip, n, ix, init, js, el, hel, own, ini, cl, closed):
    """iteration i writes, and reads of the carried array, only elements whose k-th index is i: the values it reads are the initial ones"""
    if closed: return None
    guard, val = strip_guard(el, hel)
    if guard is None or (decl_names(guard) & own): return None
    s = solve_guard(guard, ix)
    ks = [k for k, j in enumerate(js) if s is not None and isnum(z3.simplify(s - j), 0)]
    apps = own_apps(val, own)
    if not ks or apps is None: return None
    k = ks[0]
    for a in apps:
        if a.num_args() != len(js) or a.decl().name() != hel.decl().name(): return None
        if not (isnum(z3.simplify(a.arg(k) - js[k]), 0) or isnum(z3.simplify(a.arg(k) - ix), 0)): return None
        if any(own_apps(c, own) for c in a.children()): return None
    val = z3.substitute(val, *[(a, lift(ini(a.children()))) for a in apps]) if apps else val
    def fn_m(m):
        def at(*idx):
            i = lift(idx[k]); sb = [(ix, i)] + list(zip(js, idx))
            return ite(band(ge(i, 0), lt(i, m), subst(guard, sb)), subst(val, sb), ini(idx))
        return Arr(init.dims, at, init.kind)
    return fn_m

def permuted(ip, n, ix, init, js, el, hel, own, ini):
    """every iteration permutes the elements: after m iterations they are a permutation of the initial ones"""
    if len(js) != 1 or not (z3.is_app(el) and el.decl().eq(hel.decl()) and el.num_args() == 1): return None
    q = el.arg(0)
    if not (z3.is_app(q) and q.num_args() >= 1 and q.decl().name().startswith('perm@') and q.arg(q.num_args() - 1).eq(js[0])) or any(depends(c, js[0]) for c in q.children()[:-1]): return None
    d = init.dims[0]; mc = fresh('ix', IS)
    F, G = fresh_fun('composed', [IS, IS], IS), fresh_fun('composedinv', [IS, IS], IS)
    inr = lambda t: band(ge(t, 0), lt(t, d))
    for f in (F, G):
        ip.fact((f, [mc]), 'p', lambda i: implies(inr(i), band(inr(F(mc, i)), eq(G(mc, F(mc, i)), i))))
        ip.fact((f, [mc]), 'q', lambda i: implies(inr(i), band(inr(G(mc, i)), eq(F(mc, G(mc, i)), i))))
    return lambda m: Arr(init.dims, lambda *idx: ini([F(lift(m), lift(idx[0]))]), init.kind)

def strip_guard(t, acc):
    """t == ite(g, v, acc): returns (g, v); g None when t is acc"""
    if t.eq(acc): return None, None
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        c, a, b = t.children()
        ga, va = strip_guard(a, acc); gb, vb = strip_guard(b, acc)
        if ga is None and gb is None: return None, None
        if ga is None: return band(bnot(c), gb), vb
        if gb is None: return band(c, ga), va
        g = bor(band(c, ga), band(bnot(c), gb))
        return z3.simplify(g) if z3.is_true(z3.simplify(g)) else g, ite(c, va, vb)
    return z3.BoolVal(True), t

def solve_guard(g, ix):
    """find s with g => ix == s, from an equality conjunct"""
    cs = g.children() if z3.is_and(g) else [g]
    flat = []
    while cs:
        c = cs.pop(0)
        if z3.is_and(c): cs = c.children() + cs
        else: flat.append(c)
    for c in flat:
        if z3.is_eq(c) and c.arg(0).sort() == IS:
            s = solve_lin(c.arg(0), c.arg(1), ix)
            if s is not None: return s
    # disjunction of guards with the same solution
    if z3.is_or(g):
        ss = [solve_guard(c, ix) for c in g.children()]
        if all(s is not None for s in ss) and all(isnum(z3.simplify(s - ss[0]), 0) for s in ss): return ss[0]
    return None

def dnf(g, lim=24):
    if z3.is_or(g):
        out = [x for c in g.children() for x in dnf(c, lim)]
        return out if len(out) <= lim else [g]
    if z3.is_and(g):
        o = next((c for c in flat_and(g) if z3.is_or(c)), None)
        if o is None: return [g]
        rest = [c for c in flat_and(g) if not c.eq(o)]
        out = [x for d in o.children() for x in dnf(z3.And(*(rest + [d])), lim)]
        return out if len(out) <= lim else [g]
    return [g]

def segment_write(ip, n, ix, init, h, js, guard, val, acc, dep_acc, inst, ini, cl):
    """writes of iteration i go to positions o(i) <= j_k < o(i)+c(i) along one axis, o being monotone"""
    # find k with guard implying lo <= j_k < hi where lo, hi depend on ix (or closed counters)
    import os
    if os.environ.get('DBGSEG'):
        from .vc import infix
        print('SEG', infix(guard)[:1500])
    alts = dnf(guard)
    for k, j in enumerate(js):
        # probe: witness function ws(j) unknown iteration; valid when segments are disjoint
        parts = []
        for g in alts:
            los, his, rest = [], [], []
            for c in flat_and(g):
                b = bound_of(c, j)
                if z3.is_eq(c) and c.arg(0).sort() == IS and depends(c, j):
                    e = solve_lin(c.arg(0), c.arg(1), j)
                    if e is not None: los.append(e); his.append(add(e, 1)); continue
                if b is None:
                    if not any(depends(c, x) for x in js): rest.append(c)
                    continue
                (los if b[0] == 'lo' else his).append(b[1])
            if not los or not his: break
            parts.append((los[0], his[0], band(*rest)))
        if os.environ.get('DBGSEG'): print('PARTS', len(parts), len(alts))
        if len(parts) != len(alts): continue
        lo, hi = parts[-1][:2]
        for l, h_, r in reversed(parts[:-1]):
            lo = lo if lo.eq(l) or isnum(z3.simplify(lo - l), 0) else ite(r, l, lo)
            hi = hi if hi.eq(h_) or isnum(z3.simplify(hi - h_), 0) else ite(r, h_, hi)
        if len(parts) > 1:
            P0 = ip.prover
            if P0.prove(list(ip.pc) + [ge(ix, 0), lt(ix, n), subst(cl(guard, ix), [])], subst(cl(band(le(lo, j), lt(j, hi)), ix), []), ip.univ).status != 'proved': continue
        LO = lambda i: subst(cl(lo, i), [(ix, i)]); HI = lambda i: subst(cl(hi, i), [(ix, i)])
        # disjoint, ordered: hi(i) <= lo(i+1) and lo <= hi
        i0 = fresh('ix', IS)
        pc = list(ip.pc) + [ge(i0, 0), lt(i0, n)]
        from .prover import Prover
        P = ip.prover if getattr(ip, 'prover', None) else Prover(4000)
        l0 = canon(lift(LO(i0)))
        given = z3.is_app(l0) and l0.decl().kind() == z3.Z3_OP_UNINTERPRETED and l0.num_args() == 1 and l0.arg(0).eq(i0) and '@' not in l0.decl().name() and isnum(z3.simplify(HI(i0) - LO(i0)), 1)     # positions listed by the caller: in no known order
        ok = not given and P.prove(pc, le(LO(i0), HI(i0)), ip.univ).status == 'proved' and P.prove(pc, le(HI(i0), LO(add(i0, 1))), ip.univ).status == 'proved'
        if os.environ.get('DBGSEG'): print('ORDER', ok, infix(canon(LO(i0)))[:300], '|', infix(canon(HI(i0)))[:500], '|', infix(canon(LO(add(i0,1))))[:500])
        if not ok: continue
        seg, ow = ip.skfun('seg', [IS], IS)
        # for every j: either some iteration writes it (seg) or none does
        def okseg(x, m): return band(ge(seg(x), 0), lt(seg(x), m), ge(x, LO(seg(x))), lt(x, HI(seg(x))))
        # uniqueness: an iteration i that covers x is seg(x)
        ip.seg_facts = getattr(ip, 'seg_facts', [])
        def univ2(i, x): return implies(band(ge(i, 0), lt(i, n), ge(x, LO(i)), lt(x, HI(i))), eq(seg(x), i))
        ip.univ.append(Univ2(univ2, segname(ow)))
        def fn_m(m):
            def at(*idx):
                i = seg(idx[k])
                g = band(ge(i, 0), lt(i, m), inst(guard, i, idx, m))
                x = inst(val, i, idx, m)
                if dep_acc: x = z3.substitute(x, (acc, ini(idx)))
                return ite(g, x, ini(idx))
            return Arr(init.dims, at, init.kind)
        return fn_m
    return None if dep_acc else last_write(ip, n, ix, init, js, guard, val, inst, ini)

def last_write(ip, n, ix, init, js, guard, val, inst, ini):
    """any iterations may write the element: the last one that does wins"""
    ks = [k for k, j in enumerate(js) if depends(guard, j)]
    nn = lift(n)
    if not ks:
        # the whole array is replaced at some iterations: the last one that does wins
        seg, ow = ip.skfun('lastof', [IS], IS)
        js0 = [z3.IntVal(0)] * len(js)
        def fact(t): return implies(band(ge(t, 0), lt(t, nn), inst(guard, t, js0, nn)), band(ge(seg(nn), t), lt(seg(nn), nn), inst(guard, seg(nn), js0, nn)))
        ip.univ.append(fact)
        def fn_m(m):
            def at(*idx):
                i = seg(lift(m))
                return ite(band(ge(i, 0), lt(i, m), inst(guard, i, js0, m)), inst(val, i, idx, m), ini(idx))
            return Arr(init.dims, at, init.kind)
        return fn_m
    if len(ks) > 1:
        seg, ow = ip.skfun('last', [IS] * (1 + len(ks)), IS)
        def written(i, *idx):
            """an iteration that writes the element is not later than its last writer"""
            s = seg(nn, *[lift(idx[k]) for k in ks])
            return implies(band(ge(i, 0), lt(i, nn), inst(guard, i, list(idx), nn)), band(ge(s, i), lt(s, nn), inst(guard, s, list(idx), nn)))
        ip.__dict__.setdefault('writer_facts', []).append(written)      # instantiated by the contract
        def fn_m(m):
            def at(*idx):
                i = seg(lift(m), *[lift(idx[k]) for k in ks])
                return ite(band(ge(i, 0), lt(i, m), inst(guard, i, idx, m)), inst(val, i, idx, m), ini(idx))
            return Arr(init.dims, at, init.kind)
        return fn_m
    k = ks[0]
    seg, ow = ip.skfun('last', [IS, IS], IS)
    idx_at = lambda x: [x if a == k else z3.IntVal(0) for a in range(len(js))]
    def univ2(i, x):
        s = seg(nn, x)
        return implies(band(ge(i, 0), lt(i, nn), inst(guard, i, idx_at(x), nn)), band(ge(s, i), lt(s, nn), inst(guard, s, idx_at(x), nn)))
    ip.univ.append(Univ2(univ2, segname(ow)))
    def fn_m(m):
        def at(*idx):
            i = seg(lift(m), idx[k])
            return ite(band(ge(i, 0), lt(i, m), inst(guard, i, idx, m)), inst(val, i, idx, m), ini(idx))
        return Arr(init.dims, at, init.kind)
    return fn_m

class Univ2:
    """fact for all pairs of indices"""
    def __init__(self, f, seg=None): self.f = f; self.seg = seg   # seg: name of a witness function; second index ranges over its arguments
    def __call__(self, t): return z3.BoolVal(True)

def segname(ow): return ow[0].name() if ow else None

def flat_and(g):
    out = []; st = [g]
    while st:
        c = st.pop(0)
        if z3.is_and(c): st = c.children() + st
        else: out.append(c)
    return out

def bound_of(c, j):
    neg_ = False
    if z3.is_not(c): c = c.arg(0); neg_ = True
    k = c.decl().kind() if z3.is_app(c) else None
    m = {z3.Z3_OP_LE: '<=', z3.Z3_OP_LT: '<', z3.Z3_OP_GE: '>=', z3.Z3_OP_GT: '>'}
    if k not in m: return None
    op = m[k]; a, b = c.arg(0), c.arg(1)
    if neg_: op = {'<=': '>', '<': '>=', '>=': '<', '>': '<='}[op]
    if a.sort() != IS: return None
    p = to_poly(a - b)     # p op 0
    cj = None; rest = {}
    for mo, co in p.items():
        if len(mo) == 1 and mo[0][1] == 1 and ATOMS[mo[0][0]].eq(j): cj = co
        elif any(depends(ATOMS[x], j) for x, e in mo): return None
        else: rest[mo] = co
    if cj not in (1, -1): return None
    t = from_poly({mo: -co / cj for mo, co in rest.items()}, IS)   # j op' t
    if cj == -1: op = {'<=': '>=', '<': '>', '>=': '<=', '>': '<'}[op]
    if op == '>=': return ('lo', t)
    if op == '>': return ('lo', add(t, 1))
    if op == '<': return ('hi', t)
    if op == '<=': return ('hi', add(t, 1))

def path_literals(c):
    """what holds on the one path of a nested choice on which it is not zero"""
    paths = []
    def walk(t, pc):
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE: walk(t.arg(1), pc + [t.arg(0)]); walk(t.arg(2), pc + [bnot(t.arg(0))])
        elif not isnum(t, 0): paths.append(pc)
    walk(c, [])
    if len(paths) != 1: return []
    atoms = []
    def collect(q):
        if z3.is_not(q) or z3.is_and(q) or z3.is_or(q):
            for x in q.children(): collect(x)
        elif not any(q.eq(a) for a in atoms): atoms.append(q)
    for q in paths[0]: collect(q)
    ab = [(a, z3.Bool(f'atom!{k}')) for k, a in enumerate(atoms)]
    fs = [z3.substitute(q, *ab) for q in paths[0]]
    out = []
    for a, b in ab:
        for val in (True, False):
            s = z3.Solver(); s.add(*fs, z3.Not(b) if val else b)
            if s.check() == z3.unsat: out.append((a, z3.BoolVal(val))); break
    return out

def close_push(ip, n, ix, init, h, v, allsyms, own, closed, havoced, others_closed):
    """one dimension grows (push, concatenation along one axis)"""
    grow = [k for k, (x, y) in enumerate(zip(h.dims, v.dims)) if not dim_same(x, y)]
    if len(grow) != 1: return None
    g = grow[0]
    L = h.dims[g]
    if not (z3.is_const(L) and L.decl().name().startswith('len!')): return None
    c = delta(v.dims[g], L)
    if c is None: return None
    if (decl_names(c) & (allsyms | {L.decl().name()})) - others_closed: return None
    def cl(val, m): return subst_syms(ip, val, {cc: closed[cc](m) for cc in closed}, havoced) if closed else val
    # element written at offset k in [0, c), other coordinates os
    k = fresh('ix', IS); os_ = [fresh('ix', IS) for _ in range(h.rank - 1)]
    def full(x, o): return list(o[:g]) + [x] + list(o[g:])
    known = []
    if z3.is_app(c) and c.decl().kind() == z3.Z3_OP_ITE and (isnum(c.arg(1), 0) or isnum(c.arg(2), 0)):
        gd = c.arg(0) if isnum(c.arg(2), 0) else bnot(c.arg(0))
        for q in flat_and(gd): known.append((q.arg(0), z3.BoolVal(False)) if z3.is_not(q) else (q, z3.BoolVal(True)))
    if z3.is_app(c) and c.decl().kind() == z3.Z3_OP_ITE: known += path_literals(c)
    def under(x): return mapv(x, lambda t: simp_with(z3.substitute(lift(t), *known))) if known else x
    probe = under(simp_value(deref(v.at(*[z3.simplify(t) for t in full(add(L, k), os_)])), ge(k, 0)))
    def elem(i, kk, o):
        x = cl(probe, i)
        return mapv(x, lambda t: subst(t, [(ix, i), (k, kk)] + list(zip(os_, o))))
    names = set()
    def chk(t):
        names.update(decl_names(t)); return t
    mapv_force(probe, chk)
    if (names & (allsyms | {L.decl().name()})) - others_closed:
        if __import__('os').environ.get('DBG'): print('push: own', names, allsyms, L, probe, 'C', c, 'KNOWN', known, 'V', deref(probe.at(k)) if isinstance(probe, Arr) else '')
        return None
    # the elements already there are kept
    j = fresh('ix', IS)
    kept = simp_value(deref(v.at(*full(j, os_))), lt(j, L))
    if not same_value(kept, deref(h.at(*full(j, os_)))):
        if __import__('os').environ.get('DBG'): print('push: kept', kept, probe)
        return None
    cnt = lambda i: subst(cl(c, i), [(ix, i)])
    base = init.dims[g]
    def odims(d): return [x for a, x in enumerate(init.dims) if a != g]
    def split(idx): return idx[g], [x for a, x in enumerate(idx) if a != g]
    if isnum(c, 1):
        def fn_m(m):
            dims = list(init.dims); dims[g] = add(base, m)
            def at(*idx):
                jj, o = split(idx)
                return merge2(lt(jj, base), deref(init.at(*idx)), elem(sub(jj, base), z3.IntVal(0), o)) if not isnum(base, 0) else elem(jj, z3.IntVal(0), o)
            return Arr(dims, at, init.kind)
        return fn_m
    off = lambda m: mkred('isum', m, cnt)
    key = (ix.decl().name(), canon(lift(c)).sexpr())
    cache = ip.__dict__.setdefault('segcache', {})
    if key in cache: seg, ow = cache[key]       # arrays growing together share one lookup
    else:
      seg, ow = cache[key] = ip.skfun('seg', [IS], IS)
      # position p (relative to base) belongs to iteration seg(p) at local offset p - off(seg(p))
      ip.fact(ow, 'seg', lambda p: implies(band(ge(p, 0), lt(p, off(n))), band(ge(seg(p), 0), lt(seg(p), n), le(off(seg(p)), p), lt(p, add(off(seg(p)), cnt(seg(p)))), le(add(off(seg(p)), cnt(seg(p))), off(n)))))
      ip.univ.append(Univ2(lambda i, p: implies(band(ge(i, 0), lt(i, n), ge(p, off(i)), lt(p, add(off(i), cnt(i)))), eq(seg(p), i)), segname(ow)))
    def fn_m(m):
        dims = list(init.dims); dims[g] = add(base, off(m))
        def at(*idx):
            jj, o = split(idx)
            p = z3.simplify(sub(jj, base))
            e = elem(seg(p), sub(p, off(seg(p))), o)
            return e if isnum(base, 0) else merge2(lt(jj, base), deref(init.at(*idx)), e)
        a = Arr(dims, at, init.kind)
        a.meta = ('segments', seg, off, cnt)
        return a
    return fn_m

def simp_value(x, fact):
    """value with its ite conditions decided by one known fact"""
    def g(t):
        old = set(T.FACTS); T.FACTS.clear(); T.FACTS.add(canon(fact).sexpr()); T.clear_cache()
        try: return canon(simp_with(t))
        finally: T.FACTS.clear(); T.FACTS.update(old); T.clear_cache()
    return mapv(x, g)

def canon_free(f):
    T.FACTS.clear(); T.clear_cache()
    return canon(f).sexpr()

def same_value(a, b):
    if is_scalar(a) and is_scalar(b): return lift(a).eq(lift(b)) or canon(a).eq(canon(b))
    if isinstance(a, Tup) and isinstance(b, Tup): return all(same_value(deref(x), deref(y)) for x, y in zip(a.es, b.es))
    if isinstance(a, Arr) and isinstance(b, Arr) and a.rank == b.rank:
        idx = [fresh('ix', IS) for _ in a.dims]
        return all(dim_same(x, y) for x, y in zip(a.dims, b.dims)) and same_value(deref(a.at(*idx)), deref(b.at(*idx)))
    if isinstance(a, St) and isinstance(b, St): return all(same_value(deref(a.f[k]), deref(b.f[k])) for k in a.f)
    return a is b

def ip_value_at(v, idx, L):
    x = deref(v.at(z3.simplify(idx)))
    # simplify guards `L + k < L`
    return mapv(x, lambda t: simp_with(t))

def simp_with(t):
    """simplify ite conditions that are decidable polynomial comparisons"""
    memo = {}
    def go(u):
        i = u.get_id()
        if i in memo: return memo[i]
        if not z3.is_app(u) or u.num_args() == 0: r = u
        elif u.decl().kind() == z3.Z3_OP_ITE:
            c = z3.simplify(canon(u.arg(0))) if True else u.arg(0)
            if z3.is_true(c): r = go(u.arg(1))
            elif z3.is_false(c): r = go(u.arg(2))
            else:
                r = ite(u.arg(0), go(u.arg(1)), go(u.arg(2)))
        else: r = u.decl()(*[go(x) for x in u.children()])
        memo[i] = r
        return r
    return go(lift(t))

def mapv_force(v, f):
    v = deref(v)
    if is_scalar(v): f(lift(v))
    elif isinstance(v, Arr):
        for d in v.dims: f(d)
        idx = [fresh('ix', IS) for _ in v.dims]
        mapv_force(v.at(*idx), f)
    elif isinstance(v, Tup):
        for x in v.es: mapv_force(x, f)
    elif isinstance(v, St):
        for x in v.f.values(): mapv_force(x, f)
    elif isinstance(v, En):
        for x in v.ps: mapv_force(x, f)
    elif isinstance(v, SymEn):
        for g, e in v.cases: f(g); mapv_force(e, f)

# ------------------------------------------------------------------ early exits
def without_exit_conditions(paths, exit, syms):
    """conditions of non-exiting paths without the conjuncts on the loop state that not exiting already implies"""
    import copy
    atoms = []
    def collect(q):
        if z3.is_not(q) or z3.is_and(q) or z3.is_or(q):
            for x in q.children(): collect(x)
        elif not any(q.eq(a) for a in atoms): atoms.append(q)
    for q in [exit] + [p.cond for p in paths]: collect(q)
    ab = [(a, z3.Bool(f'atom!{k}')) for k, a in enumerate(atoms)]
    A = lambda q: z3.substitute(q, *ab) if ab else q
    out = []
    for p in paths:
        cs = flat_and(p.cond)
        for q in list(cs):
            if not decl_names(q) & syms: continue
            rest = [c for c in cs if c is not q]
            s = z3.Solver(); s.set('timeout', 500); s.add(z3.Not(A(exit)), *[A(c) for c in rest], z3.Not(A(q)))
            if s.check() == z3.unsat: cs = rest
        p2 = copy.copy(p)
        try: p2.cond = band(*cs)
        except AttributeError: return paths
        out.append(p2)
    return out

def first_exit(ip, n, run, body, nested, base, st, havoced, ix, ps, normal, exits, node, relate):
    from .interp import BreakEx, RetEx
    allsyms = set()
    for h in havoced.values(): allsyms |= symbols_of(h)
    cond = bor(*[p.cond for p in exits])
    # state along the non-exiting iterations
    own_conds = [p for p in normal if decl_names(p.cond) & allsyms]
    if own_conds and len(own_conds) <= 12: normal = without_exit_conditions(normal, cond, allsyms)
    final = solve(ip, n, ix, base, havoced, normal, node) if havoced and normal else (lambda c, m: base[c])
    relate(final)
    ex = lambda i: subst(subst_syms(ip, cond, {c: final(c, i) for c in havoced}, havoced) if decl_names(cond) & allsyms else cond, [(ix, i)])
    some, ows = ip.sk('sk!exits', BS, node)
    k, ow = ip.sk('first', IS, node)
    if ows is not None and ows[1]:
        ip.fact(ows, 'k', implies(some, band(ge(k, 0), lt(k, n), ex(k))))
        ip.fact(ows, 'b', lambda t: implies(band(some, ge(t, 0), lt(t, k)), bnot(ex(t))))
        ip.fact(ows, 'n', lambda t: implies(band(bnot(some), ge(t, 0), lt(t, n)), bnot(ex(t))))
    reg = ows is not None and ows[1] and all(z3.is_const(i) and not isnum(i) for i in ows[1])
    if ip.branch(some):
        ip.assume(band(ge(k, 0), lt(k, n), ex(k)))
        if not reg: ip.univ.append(lambda t, k=k, some=some: implies(band(some, ge(t, 0), lt(t, k)), bnot(ex(t))))
        for c in havoced: ip.store[c] = final(c, k)
        try:
            run(k)
        except BreakEx as b:
            if b.label: raise
            return
        from .interp import Infeasible
        raise Infeasible()
    if not reg: ip.univ.append(lambda t, some=some: implies(band(bnot(some), ge(t, 0), lt(t, n)), bnot(ex(t))))
    for c in havoced: ip.store[c] = final(c, n)

# ------------------------------------------------------------------ invariants
def by_invariant(ip, n, ix, base, havoced, pending, closed, newv, node):
    """templates: callables (ip, init value, value) -> list of (name, term) or None; inductive ones are kept"""
    out = {}
    for c in pending:
        cands = []
        for tm in ip.invariants:
            a = tm(ip, base[c], base[c])
            if a is None: continue
            cands.append(tm)
        if not cands: return None
    # Houdini over conjunctions per cell
    keep = {c: [tm for tm in ip.invariants if tm(ip, base[c], base[c]) is not None] for c in pending}
    P = ip.prover
    def facts(c, v):
        fs = []
        for tm in keep[c]: fs.append((tm, tm(ip, base[c], v)))
        return fs
    # initialisation
    for c in pending:
        keep[c] = [tm for tm in keep[c] if P.prove(ip.pc, tm(ip, base[c], base[c]), ip.univ).status == 'proved']
    while True:
        hyp = []
        hun = []
        for c in pending:
            for tm in keep[c]:
                f = tm(ip, base[c], havoced[c], hyp=True)
                (hun if callable(f) else hyp).append(f)
        dropped = False
        for c in pending:
            for tm in list(keep[c]):
                goal = tm(ip, base[c], newv[c])
                extra = [ge(ix, 0), lt(ix, n)] if n is not None else []
                if P.prove(list(ip.pc) + extra + hyp, goal, list(ip.univ) + hun).status != 'proved':
                    keep[c].remove(tm); dropped = True
        if not dropped: break
    for c in pending:
        if not keep[c]: 
            pass
        v = opaque_state(ip, havoced[c], f"inv{c}")
        for tm in keep[c]:
            f = tm(ip, base[c], v, hyp=True)
            if callable(f): ip.univ.append(f)
            else: ip.assume(f)
            ip.inv_used = getattr(ip, 'inv_used', []) + [tm.__name__]
        out[c] = (lambda m, v=v: v)
    return out

def while_loop(ip, e, env, loop=False):
    from .interp import BreakEx, ContEx, RetEx, Infeasible
    base = dict(ip.store)
    # unrolled while the condition is concretely decidable
    for _ in range(UNROLL):
        if loop: break
        s0 = dict(ip.store)
        ip.quiet += 1
        try:
            ps = ip.explore(lambda: ip.cond(e['c'], dict(env)))
        finally: ip.quiet -= 1
        if len(ps) == 1 and ps[0].kind == 'val':
            if not ip.cond(e['c'], dict(env)): return
            try: ip.block(e['body'], dict(env))
            except BreakEx as b:
                if b.label: raise
                return
            except ContEx as c:
                if c.label: raise
            continue
        break
    base = dict(ip.store)
    # counted loop: exactly one integer cell incremented by one, condition  cell < N
    def body():
        if not loop and not ip.cond(e['c'], dict(env)): raise BreakEx(None, '__cond')
        try: ip.block(e['body'], dict(env))
        except ContEx as c:
            if c.label: raise
    cnt = find_counter(ip, e, env, base) if not loop else None
    if cnt is not None:
        cell, N = cnt
        c0 = lift(base[cell])
        n = z3.simplify(sub(N, c0))
        if not ip.entails(ge(n, 0)): n = ite(ge(n, 0), n, z3.IntVal(0))
        def run(i):
            ip.store[cell] = add(c0, i)
            try: ip.block(e['body'], dict(env))
            except ContEx as c:
                if c.label: raise
        summarise(ip, n, run, e)
        ip.store[cell] = add(c0, n)
        return
    saved = (dict(ip.store), len(ip.pc), len(ip.univ))
    try: return general_loop(ip, e, env, loop, base, body)
    except Unsupported as u:
        if not any(k in str(u) for k in ('havoc', 'enum state', 'opaque')): raise
        ip.store = saved[0]; del ip.pc[saved[1]:]; del ip.univ[saved[2]:]
        return field_loop(ip, e, env, loop, base, body)

def havoc_all(ip, v, name):
    v = deref(v)
    if is_scalar(v): return fresh(name, lift(v).sort())
    if isinstance(v, Arr):
        dims = [fresh('len', IS) for _ in v.dims]
        for d in dims: ip.assume(ge(d, 0))
        r = opaque_arr(dims, deref(v.at(*[fresh('pr', IS) for _ in v.dims])), name, v.kind)
        return Arr(r.dims, r.fn, r.kind, meta=('any',))
    if isinstance(v, Tup): return Tup([havoc_all(ip, x, name) for x in v.es])
    if isinstance(v, St): return St(v.name, {k: havoc_all(ip, x, name + '_' + k) for k, x in v.f.items()})
    if isinstance(v, En): return En(v.var, [havoc_all(ip, x, name) for x in v.ps], v.names)
    if isinstance(v, (Opq, str)): return v
    raise Unsupported(f"unknown of {type(v).__name__}")

def weaken(ip, h, vals, name):
    """the least change of h (the state assumed before an iteration) that also covers vals (states after one): parts not provably unchanged become unknown"""
    h = deref(h) if not isinstance(h, Place) else h
    vals = [(p, deref(v) if not isinstance(v, Place) else v) for p, v in vals]
    vals = [(p, v) for p, v in vals if v is not h]
    if not vals: return h
    P = ip.prover
    if isinstance(h, Place) or isinstance(h, Clo) or isinstance(h, It) or h is None or isinstance(h, Rng): 
        raise Unsupported(f"loop changes {type(h).__name__}")
    if isinstance(h, (Opq, str)):
        if all(type(v) is type(h) and (isinstance(v, str) or v.name == h.name) for p, v in vals): return h
        raise Unsupported('loop changes an opaque value')
    if is_scalar(h):
        if not all(is_scalar(v) for p, v in vals): raise Unsupported('loop changes the kind of a value')
        if z3.is_const(lift(h)) and lift(h).decl().name().startswith('wh'): return h
        if all(lift(v).eq(lift(h)) or P.light(list(p.pc), eq(h, v), list(ip.univ), 250) for p, v in vals): return h
        return fresh(name, lift(h).sort())
    if isinstance(h, Arr):
        if not all(isinstance(v, Arr) and v.rank == h.rank for p, v in vals): raise Unsupported('loop changes the rank of an array')
        if isinstance(h.meta, tuple) and h.meta[:1] == ('any',): return h
        def same(p, v):
            ix = [fresh('ix', IS) for _ in h.dims]
            a, b = deref(h.at(*ix)), deref(v.at(*ix))
            if not (is_scalar(a) and is_scalar(b)): return same_value(h, v)
            rng = [z3.And(i >= 0, i < d) for i, d in zip(ix, h.dims)]
            return P.light(list(p.pc) + rng, band(*[eq(x, y) for x, y in zip(h.dims, v.dims)], eq(a, b)), list(ip.univ), 400)
        if all(same(p, v) for p, v in vals): return h
        r = havoc_all(ip, h, name)
        return Arr(r.dims, r.fn, r.kind, meta=('any',))
    if isinstance(h, Tup):
        new = [weaken(ip, x, [(p, v.es[k]) for p, v in vals], name) for k, x in enumerate(h.es)]
        return h if all(deref(a) is deref(b) for a, b in zip(new, h.es)) else Tup(new)
    if isinstance(h, St):
        new = {k: weaken(ip, x, [(p, v.f[k]) for p, v in vals], name + '_' + k) for k, x in h.f.items()}
        return h if all(deref(new[k]) is deref(h.f[k]) for k in new) else St(h.name, new)
    if isinstance(h, (En, SymEn)):
        cs = [(g, c) for g, c in (h.cases if isinstance(h, SymEn) else [(z3.BoolVal(True), h)])]
        flat = [(p, c) for p, v in vals for c in ([v] if isinstance(v, En) else [c for g, c in v.cases])]
        out = []; changed = False; vs = set()
        for g, c in cs:
            vs.add(c.var); mine = [(p, v) for p, v in flat if v.var == c.var]
            ps = [weaken(ip, x, [(p, v.ps[k]) for p, v in mine], name) for k, x in enumerate(c.ps)]
            if any(deref(a) is not deref(b) for a, b in zip(ps, c.ps)): changed = True; c = En(c.var, ps, c.names)
            out.append((g, c))
        for p, v in flat:
            if v.var not in vs:
                vs.add(v.var); b = fresh('whv', z3.BoolSort()); changed = True
                out = [(band(b, g), c) for g, c in out] + [(bnot(b), havoc_all(ip, v, name))]
        if not changed: return h
        return out[0][1] if len(out) == 1 else SymEn(out)
    raise Unsupported(f"loop changes {type(h).__name__}")

def field_loop(ip, e, env, loop, base, body):
    """any number of iterations: every field that an iteration does not provably leave unchanged is unknown at the loop head"""
    from .interp import BreakEx, RetEx, Infeasible
    head = dict(base)
    ip.quiet += 1
    try:
        for _ in range(10):
            s = ip.store
            ip.store = dict(head)
            try: ps = ip.explore(body)
            finally: ip.store = s
            normal = [p for p in ps if p.kind == 'val']
            new = {c: weaken(ip, head[c], [(p, p.store[c]) for p in normal if c in p.store], f"wh{c}") for c in head}
            if all(new[c] is head[c] for c in head): break
            head = new
        else: raise Unsupported('loop state does not settle')
    finally: ip.quiet -= 1
    ip.store.update(head)
    ip.inv_used = getattr(ip, 'inv_used', []) + ['unchanged parts']
    if not loop:
        if not ip.cond(e['c'], dict(env)): return
    try: ip.block(e['body'], dict(env))
    except BreakEx as b:
        if b.label: raise
        return b.v if b.v is not None else UNIT
    raise Infeasible()

def find_counter(ip, e, env, base):
    c = e['c']
    if c['k'] != 'binary' or c['op'] not in ('<', '!=', '>', '<='): return None
    l, r, op = c['l'], c['r'], c['op']
    if op == '>': l, r, op = r, l, '<'
    if l['k'] != 'path' or len(l['p']['segs']) != 1 or l['p']['segs'][0] not in env: return None
    cell = env[l['p']['segs'][0]]
    if not is_int(base[cell]): return None
    ip.quiet += 1
    try:
        h = fresh('ctr', IS)
        s = ip.store
        ip.store = dict(base); ip.store[cell] = h
        try:
            def th():
                try: ip.block(e['body'], dict(env))
                except Exception as ex:
                    from .interp import ContEx
                    if isinstance(ex, ContEx) and not ex.label: return
                    raise
            ps = ip.explore(th)
            N = ip.evd(r, env)
        except Unsupported: return None
        finally: ip.store = s
        for p in ps:
            if p.kind != 'val': return None
            v = p.store[cell]
            if not isnum(z3.simplify(v - h), 1): return None
        N = lift(N)
        # the bound must not be modified by the body
        for p in ps:
            s2 = ip.store; ip.store = dict(p.store)
            try: N2 = lift(ip.evd(r, env))
            except Unsupported: return None
            finally: ip.store = s2
            if not N2.eq(N): return None
        if op == '<=': N = add(N, 1)
        return cell, N
    finally: ip.quiet -= 1

def general_loop(ip, e, env, loop, base, body):
    """havoc + invariant templates"""
    from .interp import BreakEx, RetEx, Infeasible
    ip.quiet += 1
    try:
        havoced = {}
        for _ in range(4):
            s = ip.store
            st = dict(base); st.update(havoced)
            ip.store = st
            try: ps = ip.explore(body)
            finally: ip.store = s
            mod = set(); last = {}
            for p in ps:
                if p.kind == 'panic': continue
                for c in base:
                    if p.store.get(c) is not base_or(havoced, base, c): mod.add(c); last.setdefault(c, p.store.get(c))
            new = mod - set(havoced)
            if not new: break
            for c in new: havoced[c] = opaque_state(ip, shape_of(base[c], last[c]), f"wh{c}")
    finally: ip.quiet -= 1
    normal = [p for p in ps if p.kind == 'val']
    # invariants
    keep = {}
    P = ip.prover
    for c in havoced:
        keep[c] = [tm for tm in ip.invariants if tm(ip, base[c], base[c]) is not None]
        keep[c] = [tm for tm in keep[c] if P.prove(ip.pc, tm(ip, base[c], base[c]), ip.univ).status == 'proved']
    while True:
        hyp, hun = [], []
        for c in havoced:
            for tm in keep[c]:
                f = tm(ip, base[c], havoced[c], hyp=True)
                (hun if callable(f) else hyp).append(f)
        dropped = False
        for c in havoced:
            for tm in list(keep[c]):
                for p in normal:
                    r = P.prove(list(p.pc) + hyp, tm(ip, base[c], p.store[c]), list(ip.univ) + hun)
                    if r.status != 'proved': keep[c].remove(tm); dropped = True; break
        if not dropped: break
    # state at the loop head
    for c in havoced:
        ip.store[c] = havoced[c]
        for tm in keep[c]:
            f = tm(ip, base[c], havoced[c], hyp=True)
            if callable(f): ip.univ.append(f)
            else: ip.assume(f)
            ip.inv_used = getattr(ip, 'inv_used', []) + [getattr(tm, '__name__', 'inv')]
    # last pass: leave through the condition, a break or a return
    try:
        if not loop:
            if not ip.cond(e['c'], dict(env)): return
        try: ip.block(e['body'], dict(env))
        except BreakEx as b:
            if b.label: raise
            return b.v if b.v is not None else UNIT
    except RetEx: raise
    raise Infeasible()
