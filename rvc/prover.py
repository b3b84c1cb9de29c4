"""Discharging obligations."""
import z3, itertools, time, subprocess, tempfile, os
from . import terms as T, tensor
from .terms import *

class Result:
    __slots__ = ('status', 'model', 'backend', 'time', 'detail')
    def __init__(self, status, model=None, backend='', t=0.0, detail=''):
        self.status, self.model, self.backend, self.time, self.detail = status, model, backend, t, detail

def denominators(ts):
    out = {}; seen = set(); st = list(ts)
    while st:
        u = st.pop(); i = u.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_app(u):
            if u.decl().kind() == z3.Z3_OP_DIV and not isnum(u.arg(1)): out[u.arg(1).sexpr()] = u.arg(1)
            if u.num_args() == 0 and u.decl().kind() == z3.Z3_OP_UNINTERPRETED and u.decl().name() in REDS:
                st.append(REDS[u.decl().name()].body)
            st.extend(u.children())
    return list(out.values())

def sqrt_args(ts):
    out = {}; seen = set(); st = list(ts)
    while st:
        u = st.pop(); i = u.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_app(u):
            if u.decl().name() == 'sqrt' and u.num_args() == 1: out[u.arg(0).sexpr()] = u.arg(0)
            if u.num_args() == 0 and u.decl().kind() == z3.Z3_OP_UNINTERPRETED and u.decl().name() in REDS:
                st.append(REDS[u.decl().name()].body)
            st.extend(u.children())
    return list(out.values())

def has_bv(t):
    return any(n.startswith(('bv!', 'bvx!', 'pp!', 'qq!', 'cv!', 'pr!')) for n in consts_of(t))

def index_terms(ts, limit=26):
    """integer terms occurring as skolem constants or as arguments of uninterpreted functions"""
    out = {}; seen = set(); st = list(ts); prio = {}
    while st:
        u = st.pop(); i = u.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_app(u):
            if u.num_args() == 0 and u.sort() == IS and u.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                nm = u.decl().name()
                if nm.startswith(('sk!', 'ix!', 'arg!', 'rng!')): out[u.sexpr()] = u
            elif u.num_args() > 0 and u.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                for a in u.children():
                    if a.sort() == IS and not has_bv(a): out.setdefault(a.sexpr(), a)
                if u.sort() == IS and not has_bv(u): out.setdefault(u.sexpr(), u)
            st.extend(u.children())
    l = sorted(out.items(), key=lambda kv: (len(kv[0]), kv[0]))
    return [t for _, t in l[:limit]]

def schema_apps(ts, names):
    out = {}; seen = set(); st = list(ts)
    while st:
        u = st.pop(); i = u.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_app(u):
            if u.decl().kind() == z3.Z3_OP_UNINTERPRETED and u.num_args() > 0 and u.decl().name() in names: out[u.sexpr()] = u
            st.extend(u.children())
    return list(out.values())

def all_terms(t):
    """t and the bodies of the reductions it mentions"""
    out = [t]; seen = set(); st = [t]
    while st:
        u = st.pop()
        for r in T.reds_of(u):
            k = r.sym.decl().name()
            if k not in seen: seen.add(k); out += [r.body, r.n]; st += [r.body, r.n]
    return out

def int_consts(t):
    out = {}
    for x in all_terms(t):
        st = [x]; seen = set()
        while st:
            u = st.pop()
            if u.get_id() in seen: continue
            seen.add(u.get_id())
            if z3.is_const(u) and u.sort() == IS and not isnum(u) and not has_bv(u) and u.decl().kind() == z3.Z3_OP_UNINTERPRETED and not u.decl().name().startswith(('d_', 'isum#')): out[u.decl().name()] = u
            st.extend(u.children())
    return sorted(out.values(), key=lambda c: (not c.decl().name().startswith('ix!'), c.decl().name()))[:8]

class Prover:
    def __init__(self, timeout=8000):
        self.timeout = timeout
        self.use_cvc5 = True
        self.cvc5_time = 0.0
        self.counts = {}

    def facts(self, ts, univ=(), depth=3, rounds=2):
        from .interp import SCHEMAS
        from .loops import Univ2
        ax = red_axioms(ts, depth)
        ts2 = list(ts) + ax
        have = {t.get_id() for t in ts2}
        done = set()
        for _ in range(rounds):
            its = index_terms(ts2)
            add_ = []
            u1 = list(univ)
            for a in schema_apps(ts2, SCHEMAS):
                if has_bv(a): continue
                for slot, (idx, f) in SCHEMAS[a.decl().name()].items():
                    m = list(zip(idx, a.children()[:len(idx)]))
                    key = (slot, a.decl().name(), tuple(x.get_id() for _, x in m))
                    if callable(f): u1.append(lambda t, f=f, m=m: subst(f(t), m))
                    elif key not in done:
                        done.add(key); add_.append(subst(f, m))
            pairs = its[:12]
            for k, f in enumerate(u1):
                if isinstance(f, Univ2):
                    if f.seg:
                        ps2 = [x.children()[-1] for x in schema_apps(ts2, {f.seg}) if not has_bv(x)][:6]
                        pr = itertools.product(its[:16], ps2)
                    else: pr = itertools.product(pairs, pairs)
                    for a, b in pr:
                        key = (k, a.get_id(), b.get_id())
                        if key in done: continue
                        done.add(key); add_.append(f.f(a, b))
                else:
                    for t in its:
                        key = (k, t.get_id()) if k < len(univ) else None
                        if key and key in done: continue
                        if key: done.add(key)
                        add_.append(f(t))
            new = []
            for a in add_:
                a = z3.simplify(lift(a)) if z3.is_true(lift(a)) else lift(a)
                if z3.is_true(a) or a.get_id() in have: continue
                have.add(a.get_id()); new.append(a)
            if not new: break
            ts2 += new
            ts2 += red_axioms(new, 1 if depth < 3 else 2)
        ts2 += self.and_instances(ts2)
        fx = fun_axioms(ts2)
        return ts2[len(ts):] + fx

    def and_instances(self, ts):
        """universal direction of boolean/extremum reductions at the known index terms"""
        out = []
        rs = {}
        for t in ts:
            for r in reds_of(t):
                if r.kind in ('and', 'or', 'min', 'max') and not has_bv(r.sym): rs[r.sym.decl().name()] = r
        if not rs: return out
        for _ in range(2):
            its = index_terms(list(ts) + out)
            new = []
            for r in list(rs.values()):
                for t in its:
                    b = red_at(r, t); g = z3.And(t >= 0, t < r.n)
                    if r.kind == 'and': f = z3.Implies(z3.And(r.sym, g), b)
                    elif r.kind == 'or': f = z3.Implies(z3.And(g, b), r.sym)
                    elif r.kind == 'min': f = z3.Implies(g, r.sym <= b)
                    else: f = z3.Implies(g, r.sym >= b)
                    if not any(f.eq(x) for x in out): new.append(f)
            n0 = len(rs)
            out += new
            for t in new:
                for r in reds_of(t):
                    if r.kind in ('and', 'or', 'min', 'max') and r.sym.decl().name() not in rs: rs[r.sym.decl().name()] = r
            out += red_axioms(new, 1)
            if len(rs) == n0: break
        return out

    def quick(self, pc, goal, timeout=600):
        fs = list(pc) + [bnot(goal)]
        fs = fs + fun_axioms(fs)
        r, _ = check_sat(fs, timeout)
        return r == z3.unsat

    def prepare(self, pc, goal):
        """establish which denominators are non-zero / sqrt args non-negative under pc"""
        T.SQRT_OK.clear(); T.NONZERO.clear(); T.FACTS.clear(); T.clear_cache()
        fc = set()
        for p in pc:
            for c in (p.children() if z3.is_and(p) else [p]):
                if z3.is_app(c) and c.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT) and c.arg(0).sort() in (RS, IS):
                    fc.add(canon(c).sexpr())
        T.FACTS |= fc; T.clear_cache()
        dens = denominators([goal]); sqs = sqrt_args([goal])
        if not dens and not sqs: return
        ok1, ok2 = set(), set()
        fs = list(pc)
        for a in sqs:
            if isnum(a): continue
            if self.nonneg(fs, a): ok1.add(a.sexpr()); ok1.add(canon(a).sexpr())
        for d in dens:
            if self.nonzero(fs, d):
                c = canon(d)
                ok2.add(c.sexpr())
                p = to_poly(c)
                if len(p) == 1:
                    for x, e in list(p)[0]: ok2.add(ATOMS[x].sexpr())
        for a in sqs:
            if T.sqrt(a).sexpr() in ok2: ok2 |= {a.sexpr(), canon(a).sexpr()}
        T.clear_cache()
        T.SQRT_OK |= ok1; T.NONZERO |= ok2

    def resolve_segs(self, pc, goal, univ):
        """replace a segment lookup by its known value when the position is shown to lie in that segment"""
        from .loops import Univ2
        us = [f for f in univ if isinstance(f, Univ2) and f.seg]
        if not us: return goal
        try: goal = canon(goal)
        except Exception: pass
        for f in us:
            for _ in range(10):
                aps = [a for a in schema_apps(all_terms(goal), {f.seg}) if not has_bv(a)]
                aps = [a for a in aps if not schema_apps(list(a.children()), {f.seg})]
                hit = False
                for ap in aps[:8]:
                    t = ap.children()[-1]
                    near = {x.get_id() for r in T.reds_of(t) for x in int_consts(r.n)}
                    for c in sorted(int_consts(goal), key=lambda c: c.get_id() not in near):
                        imp = f.f(c, t)
                        if not z3.is_or(imp) and not z3.is_implies(imp): continue
                        cs = imp.children()
                        hyp = cs[0] if z3.is_implies(imp) else None
                        if hyp is None:
                            eqs = [x for x in cs if z3.is_eq(x)]
                            if not eqs: continue
                            hyp = z3.And(*[bnot(x) for x in cs if not x.eq(eqs[-1])])
                            e = eqs[-1]
                        else: e = cs[1]
                        if not z3.is_eq(e): continue
                        other = e.arg(1) if e.arg(0).decl().name() == f.seg else e.arg(0)
                        if not other.eq(c): continue
                        ok = self.light(pc, hyp, [q for q in univ if not isinstance(q, Univ2)], 1500)
                        if not ok:
                            fs = list(pc) + [z3.Not(hyp)]
                            fs = [canon_b(x) for x in fs]
                            fs += self.facts(fs, depth=1)
                            ok = check_sat(fs, 4000)[0] == z3.unsat
                        if ok:
                            g2 = goal
                            for b in aps:
                                if b.eq(ap) or (all(x.eq(y) for x, y in zip(b.children()[:-1], ap.children()[:-1])) and T.is_zero(b.children()[-1] - t)): g2 = T.replace_everywhere(g2, b, c)
                            if not g2.eq(goal): goal = canon(g2); hit = True; break
                    if hit: break
                if not hit: break
        return goal

    def about(self, pc, a):
        """the conjuncts of pc that mention only symbols of a"""
        from .loops import decl_names
        ds = decl_names(a)
        out = []
        for p in pc:
            for c in (p.children() if z3.is_and(p) else [p]):
                if decl_names(c) <= ds: out.append(c)
        return out
    def holds_simple(self, pc, neg_):
        for fs in (self.about(pc, neg_), list(pc)):
            fs = fs + [neg_]
            fs = fs + self.facts(fs, depth=1)
            r, _ = check_sat(fs, 1500)
            if r == z3.unsat: return True
        return False
    def nonneg(self, pc, a): return self.holds_simple(pc, a < 0)
    def nonzero(self, pc, a): return self.holds_simple(pc, a == 0)

    def prove(self, pc, goal, univ=(), timeout=None, lemmas=()):
        t0 = time.time()
        timeout = timeout or self.timeout
        goal = lift(goal)
        pc = [lift(p) for p in pc]
        try:
            g = canon(goal)
        except Exception:
            g = goal
        if z3.is_true(g): return Result('proved', backend='canonical-form', t=time.time() - t0)
        self.prepare(pc, goal)
        if z3.is_true(canon(goal)):
            T.SQRT_OK.clear(); T.NONZERO.clear(); T.FACTS.clear(); T.clear_cache()
            return Result('proved', backend='canonical-form', t=time.time() - t0)
        segs = {f.seg for f in univ if getattr(f, 'seg', None)}
        if not (T.TAGS and segs and schema_apps(all_terms(canon(goal)), segs)) and not has_toint(goal):
            if univ and self.light(pc, goal, univ, 1500): return Result('proved', backend='z3', t=time.time() - t0)
        if any(getattr(f, 'seg', None) for f in univ):
            T.SQRT_OK.clear(); T.NONZERO.clear(); T.FACTS.clear(); T.clear_cache()
            goal = self.resolve_segs(pc, goal, univ)
            self.prepare(pc, goal)
        if T.TAGS: goal = under_tags(pc, goal)
        if has_toint(goal): goal = use_equalities(canon(goal))
        try:
            g = canon(goal)
            if z3.is_true(g): return Result('proved', backend='canonical-form', t=time.time() - t0)
            if os.environ.get('SHOWG'):
                from .vc import infix
                print('NZ', T.NONZERO, 'SQ', T.SQRT_OK); print(infix(g)[:6000])
            r = self._prove(pc, g, univ, timeout, lemmas, 0)
            if r.status != 'proved' and not g.eq(goal):
                r2 = self._z3(pc, goal, univ, timeout, lemmas)
                if r2.status == 'proved': r = r2
        finally:
            T.SQRT_OK.clear(); T.NONZERO.clear(); T.FACTS.clear(); T.clear_cache()
        r.time = time.time() - t0
        return r

    def _prove(self, pc, g, univ, timeout, lemmas, depth):
        if z3.is_true(g): return Result('proved', backend='canonical-form')
        if z3.is_and(g):
            for c in g.children():
                r = self._prove(pc, c, univ, timeout, lemmas, depth)
                if r.status != 'proved': return r
            return r
        if depth < 6 and has_toint(g):
            # integer parts: split the cases first
            c = find_ite_cond(g)
            if c is not None:
                for cc, pick in ((c, True), (bnot(c), False)):
                    r = self._prove(pc + [cc], canon(replace_cond(g, c, pick)), univ, timeout, lemmas, depth + 1)
                    if r.status != 'proved': return r
                return r
        if z3.is_eq(g) and g.arg(0).sort() == RS and find_ite_cond(g) is None and (tensor.has_sums(g.arg(0)) or tensor.has_sums(g.arg(1))) and tensor.equal(g.arg(0), g.arg(1)):
            return Result('proved', backend='flattened-sums')
        r = self._z3(pc, g, univ, timeout if depth == 0 else timeout // 2, lemmas)
        if r.status == 'proved': return r
        # case split on an ite condition and retry with canonical forms
        if depth < 6 and z3.is_eq(g) and g.arg(0).sort() in (RS, IS):
            c = find_ite_cond(g)
            if c is not None:
                rs = []
                for cc, pick in ((c, True), (bnot(c), False)):
                    sat, _ = check_sat(pc + [cc], 800)
                    if sat == z3.unsat: continue
                    g2 = canon(replace_cond(g, c, pick))
                    r2 = self._prove(pc + [cc], g2, univ, timeout, lemmas, depth + 1)
                    if r2.status != 'proved': return r2 if r.status != 'refuted' else r
                    rs.append(r2)
                return Result('proved', backend='case-split')
        return r

    def light(self, pc, goal, univ=(), timeout=2500, max_inst=12):
        """first-order reasoning only: equal sums are equal constants, sums of non-negative terms are non-negative,
        universal facts are instantiated at the free index constants"""
        from .loops import Univ2, decl_names
        F0 = set(T.FACTS); T.FACTS.clear(); T.clear_cache()
        self.cur_univ = univ; self.cur_pc = pc
        try:
            if len(pc) > 12 and self._light(pc, goal, univ, timeout, max_inst, True): return True
            return self._light(pc, goal, univ, timeout, max_inst, False)
        finally: T.FACTS |= F0; T.clear_cache()
    def _light(self, pc, goal, univ, timeout, max_inst, narrow):
        from .loops import Univ2, decl_names
        fs = [canon_b(lift(p)) for p in pc] + [bnot(canon_b(lift(goal)))]
        its = {}
        gx = [x for x in all_terms(fs[-1])]
        for f in gx if narrow else fs:
            st = [f]; seen = set()
            while st:
                u = st.pop()
                if u.get_id() in seen: continue
                seen.add(u.get_id())
                if z3.is_const(u) and u.sort() == IS and u.decl().kind() == z3.Z3_OP_UNINTERPRETED and u.decl().name().startswith(('ix!', 'sk!', 'arg!')): its[u.decl().name()] = u
                st.extend(u.children())
        names = set()
        for f in fs: names |= decl_names(f)
        gs = []
        for f in univ:
            if isinstance(f, Univ2): continue
            k = id(f)
            if k not in self.NAMES:
                self.NAMES[k] = (f, {x for x in decl_names(lift(f(z3.Int('ix!any')))) if x.startswith('sk!') and '@' not in x})
            if self.NAMES[k][1] <= names: gs.append(f)
        if gs:
            r, s = check_sat(fs + fun_axioms(fs, pairwise=False), 300)
            if r == z3.unsat: return True
        from .interp import SCHEMAS
        seen_i = set(); dead = set(names)
        for rnd in range(3):
            segs = {f.seg for f in univ if isinstance(f, Univ2) and f.seg}
            aps = [a for a in schema_apps([x for f in fs for x in all_terms(f)], set(SCHEMAS) | segs) if not has_bv(a)][:14]
            for a in aps:
                if a.sort() == IS and not a.decl().name().startswith('seg'): its.setdefault(a.sexpr(), a)
            new = []
            ts = list(its.values())[:max_inst]
            for a in aps:
                for slot, (idx, f) in SCHEMAS.get(a.decl().name(), {}).items():
                    m = list(zip(idx, a.children()[:len(idx)]))
                    for t in (ts if callable(f) else [None]):
                        key = (slot, a.get_id(), t.get_id() if t is not None else 0)
                        if key in seen_i: continue
                        seen_i.add(key); new.append(subst(lift(f(t)) if t is not None else f, m))
                # position arguments of a segment lookup
                if a.decl().name().startswith('seg'):
                    p = a.children()[-1]
                    for k, f in enumerate(gs):
                        if (k, p.get_id(), 1) not in seen_i: seen_i.add((k, p.get_id(), 1)); new.append(lift(f(p)))
            for t in ts:
                for k, f in enumerate(gs):
                    if (k, t.get_id(), 1) in seen_i: continue
                    seen_i.add((k, t.get_id(), 1)); new.append(lift(f(t)))
                for k, f in enumerate(univ):
                    if isinstance(f, Univ2) and f.seg and any(f.seg == a.decl().name() for a in aps):
                        for a in aps:
                            if a.decl().name() != f.seg: continue
                            key = (k, t.get_id(), a.get_id(), 2)
                            if key in seen_i: continue
                            seen_i.add(key); new.append(lift(f.f(t, a.children()[-1])))
            new = [canon_b(x) for x in new]
            new = [x for x in new if not z3.is_true(x)]
            if not new: break
            fs += new
            if rnd < 2 and self._light_check(fs, its, max_inst, 600): return True
        return self._light_check(fs, its, max_inst, timeout)

    def _light_check(self, fs, its, max_inst, timeout):
        fs = list(fs)
        done = {}
        fs0 = list(fs)
        for f in fs0:
            for r in T.reds_of(f):
                nm = r.sym.decl().name()
                if nm in done or r.kind not in ('and', 'or', 'min', 'max'): continue
                done[nm] = r
                if r.kind in ('and', 'or', 'min', 'max'):
                    for t in list(its.values())[:max_inst]:
                        b = canon_b(red_at(r, t)); g = z3.And(t >= 0, t < r.n)
                        fs.append({'and': lambda: z3.Implies(z3.And(r.sym, g), b), 'or': lambda: z3.Implies(z3.And(g, b), r.sym), 'min': lambda: z3.Implies(g, r.sym <= b), 'max': lambda: z3.Implies(g, r.sym >= b)}[r.kind]())
        for f in list(fs):
            for r in T.reds_of(f):
                nm = r.sym.decl().name()
                if nm in done: continue
                done[nm] = r
                if r.kind in ('sum', 'isum'): fs.append(z3.Implies(r.n <= 0, r.sym == 0))
                if r.kind in ('sum', 'isum') and self.sign(r): fs.append(r.sym >= 0)
        ps = [r for r in done.values() if r.kind == 'isum']
        for i, r in enumerate(ps):
            for q in ps[i + 1:]:
                if not self.same_body(r, q): continue
                for a, b in ((r, q), (q, r)):
                    if self.sign(b):
                        fs.append(z3.Implies(z3.And(a.n >= 0, a.n < b.n), z3.And(a.sym >= 0, b.sym >= a.sym + canon(red_at(a, a.n)))))
                fs.append(z3.Implies(r.n == q.n, r.sym == q.sym))
        qs = [r for r in done.values() if r.kind == 'sum']
        if len(qs) <= 8:
            for i, r in enumerate(qs):
                for q in qs[i + 1:]:
                    if r.n.eq(q.n) and (T.reds_of(r.body) and T.reds_of(q.body)) and self.same_body(r, q): fs.append(r.sym == q.sym)
        fs += fun_axioms(fs, pairwise=False)
        r, s = check_sat(fs, timeout)
        return r == z3.unsat

    SAME = {}; cur_pc = ()
    def ranges(self, *ns):
        """known integer bounds on the lengths ns"""
        from .loops import decl_names
        ds = set()
        for n in ns: ds |= decl_names(lift(n))
        out = []
        for p in self.cur_pc:
            for c in (p.children() if z3.is_and(p) else [p]):
                if z3.is_app(c) and c.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT) and c.arg(0).sort() == IS and decl_names(c) & ds and not T.reds_of(c): out.append(c)
        return out[:12]
    def same_body(self, r, q):
        """both reductions add the same terms (under the facts known of every index)"""
        from .loops import Univ2
        b2 = canon(subst(q.body, [(q.bv, r.bv)])); b1 = canon(r.body)
        if b1.eq(b2): return True
        us = [f for f in self.cur_univ if not isinstance(f, Univ2)]
        if not us: return False
        rng = self.ranges(r.n, q.n)
        k = (b1.sexpr(), b2.sexpr(), r.n.sexpr(), q.n.sexpr(), tuple(id(f) for f in us), tuple(sorted(x.sexpr() for x in rng)))
        if k not in self.SAME:
            self.KEEP.append(us)
            fs = [r.bv >= 0, z3.Or(r.bv < r.n, r.bv < q.n), b1 != b2] + rng
            for f in us[:12]:
                a = lift(f(r.bv))
                if not T.reds_of(a): fs.append(canon_b(a))
            from .loops import decl_names
            self.SAME[k] = False
            i1, i2 = T.reds_of(b1), T.reds_of(b2)          # inner reductions of the same terms are the same
            fs += [a.sym == b.sym for a in i1 for b in i2 if a is not b and a.kind == b.kind and a.n.eq(b.n) and len(i1) * len(i2) <= 16 and self.same_body(a, b)]
            self.SAME[k] = bool(decl_names(b1) & decl_names(b2)) and check_sat(fs + fun_axioms(fs, pairwise=False), 500)[0] == z3.unsat
        return self.SAME[k]
    SIGN = {}; KEEP = []; cur_univ = (); NAMES = {}
    def sign(self, r):
        """the summand is never negative, whatever its free symbols"""
        from .loops import Univ2
        us = [f for f in self.cur_univ if not isinstance(f, Univ2)]
        rng = self.ranges(r.n) if us else []
        k = (r.kind, r.body.sexpr(), r.n.sexpr(), tuple(id(f) for f in us), tuple(sorted(x.sexpr() for x in rng)))
        if k not in self.SIGN:
            fs = [r.bv >= 0, r.bv < r.n, r.body < 0] + rng
            self.KEEP.append(us)
            for f in us[:12]:
                a = lift(f(r.bv))
                if not T.reds_of(a): fs.append(canon_b(a))
            q, _ = check_sat(fs + fun_axioms(fs, pairwise=False), 800)
            self.SIGN[k] = q == z3.unsat
        return self.SIGN[k]

    def _z3(self, pc, g, univ, timeout, lemmas):
        if not lemmas and self.light(pc, g, univ): return Result('proved', backend='z3')
        F0 = set(T.FACTS); T.FACTS.clear(); T.clear_cache()
        fs = [canon_b(p) for p in pc]
        T.FACTS |= F0; T.clear_cache()
        fs += [bnot(g)]
        fs += [canon_b(lift(l)) for l in lemmas]
        ax = self.facts(fs, univ)
        ax2 = [canon_b(a) for a in ax]
        allf = fs + ax2
        r, s = check_sat(allf, timeout)
        if r == z3.unsat: return Result('proved', backend='z3')
        if r == z3.sat:
            return Result('refuted', model=s.model(), backend='z3')
        if self.use_cvc5:
            t = time.time()
            ok = cvc5_unsat(s, max(2, timeout // 1000))
            self.cvc5_time += time.time() - t
            if ok: return Result('proved', backend='cvc5')
        return Result('unknown', backend='z3', detail=s.reason_unknown())

def canon_b(p):
    try:
        if z3.is_quantifier(p): return p
        if z3.is_implies(p): return z3.Implies(canon_b(p.arg(0)), canon_b(p.arg(1)))
        if z3.is_and(p): return band(*[canon_b(c) for c in p.children()])
        if z3.is_or(p): return bor(*[canon_b(c) for c in p.children()])
        if z3.is_not(p): return bnot(canon_b(p.arg(0)))
        return canon(p)
    except Unsupported:
        return p

def has_toint(g):
    seen = set(); st = [g]
    while st:
        u = st.pop(); i = u.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_app(u):
            if u.decl().kind() == z3.Z3_OP_TO_INT: return True
            st.extend(u.children())
    return False

def find_ite_cond(g):
    seen = set(); st = [g]
    best = None
    while st:
        u = st.pop(); i = u.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_app(u):
            if u.decl().kind() == z3.Z3_OP_ITE:
                c = u.arg(0)
                # prefer innermost (no ite inside the condition)
                if find_ite_cond(c) is None:
                    if z3.is_and(c) or z3.is_or(c): return c.arg(0) if not z3.is_not(c.arg(0)) else c.arg(0).arg(0)
                    return c
            st.extend(u.children())
    return None

def under_tags(pc, goal):
    """use the known kinds of symbolic enum values in the goal"""
    def lits(c, pos, out):
        if z3.is_not(c): return lits(c.arg(0), not pos, out)
        if (z3.is_and(c) and pos) or (z3.is_or(c) and not pos):
            for x in c.children(): lits(x, pos, out)
        elif z3.is_app(c) and c.decl().name() in T.TAGS: out.append((c, z3.BoolVal(pos)))
    goal = canon(goal)
    if z3.is_and(goal): return band(*[under_tags(pc, c) for c in goal.children()])
    ls = []
    for p in pc: lits(lift(p), True, ls)
    hyp = []
    if z3.is_or(goal):
        for d in goal.children(): lits(d, False, hyp)
    if not ls and not hyp: return goal
    m = ls + hyp
    if z3.is_or(goal):
        ds = []
        for d in goal.children():
            own = []; lits(d, False, own)
            ds.append(z3.substitute(d, *ls) if own and ls else d if own else z3.substitute(d, *m))
        g = bor(*ds)
    else: g = z3.substitute(goal, *m)
    return canon(simp_ite(g))

def use_equalities(goal):
    """in a goal 'not (.. and a = t and ..) or rest' replace the array read a by t in rest"""
    if z3.is_and(goal): return band(*[use_equalities(c) for c in goal.children()])
    if not z3.is_or(goal): return goal
    hyp = []
    for d in goal.children():
        if not z3.is_not(d): continue
        c = d.arg(0)
        for l in (c.children() if z3.is_and(c) else [c]):
            if not z3.is_eq(l) or l.arg(0).sort() != RS: continue
            p = T.to_poly(l.arg(0) - l.arg(1))
            for mo, co in p.items():
                if len(mo) == 1 and mo[0][1] == 1 and abs(co) == 1:
                    a = T.ATOMS[mo[0][0]]
                    if a.num_args() and a.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        t = T.from_poly({m: -c2 / co for m, c2 in p.items() if m != mo}, RS)
                        if not any(u.eq(a) for u in sub_terms(t)): hyp.append((d, a, t)); break
    if not hyp: return goal
    return canon(bor(*[z3.substitute(d, *[(a, t) for d2, a, t in hyp if d2 is not d]) if any(d2 is not d for d2, a, t in hyp) else d for d in goal.children()]))
def sub_terms(t):
    out = []; seen = set(); st = [t]
    while st:
        u = st.pop()
        if u.get_id() in seen: continue
        seen.add(u.get_id()); out.append(u)
        if z3.is_app(u): st.extend(u.children())
    return out

def replace_cond(g, c, val):
    v = z3.BoolVal(val)
    g = z3.substitute(g, (c, v))
    return z3.simplify(g) if False else simp_ite(g)

def simp_ite(t):
    memo = {}
    def go(u):
        i = u.get_id()
        if i in memo: return memo[i]
        if not z3.is_app(u) or u.num_args() == 0: r = u
        elif u.decl().kind() == z3.Z3_OP_ITE:
            c = go(u.arg(0))
            if z3.is_true(c): r = go(u.arg(1))
            elif z3.is_false(c): r = go(u.arg(2))
            else: r = z3.If(c, go(u.arg(1)), go(u.arg(2)))
        elif u.decl().kind() == z3.Z3_OP_AND: r = band(*[go(c) for c in u.children()])
        elif u.decl().kind() == z3.Z3_OP_OR: r = bor(*[go(c) for c in u.children()])
        elif u.decl().kind() == z3.Z3_OP_NOT: r = bnot(go(u.arg(0)))
        else: r = u.decl()(*[go(c) for c in u.children()])
        memo[i] = r
        return r
    return go(t)

def cvc5_unsat(solver, secs):
    try:
        smt = solver.to_smt2()
        smt = "(set-logic ALL)\n" + smt.replace('!', '_').replace('#', '_')
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write(smt); fn = f.name
        try:
            p = subprocess.run(['cvc5', '--tlimit=%d' % (secs * 1000), fn], capture_output=True, text=True, timeout=secs + 5)
            return p.stdout.strip().startswith('unsat')
        finally:
            os.unlink(fn)
    except Exception:
        return False
