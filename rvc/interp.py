"""Symbolic evaluator / verification-condition generator over the JSON AST of the real code."""
import z3, hashlib
from fractions import Fraction
from . import terms as T
from .terms import *
from .values import *

class RetEx(Exception):
    def __init__(self, v): self.v = v
class BreakEx(Exception):
    def __init__(self, v=None, label=None): self.v = v; self.label = label
class ContEx(Exception):
    def __init__(self, label=None): self.label = label
class PanicEx(Exception):
    def __init__(self, msg, line=0): self.msg = msg; self.line = line
class Infeasible(Exception): pass

class Path:
    __slots__ = ('pc', 'cond', 'kind', 'v', 'store', 'label')
    def __init__(self, pc, cond, kind, v, store, label=None):
        self.pc, self.cond, self.kind, self.v, self.store, self.label = pc, cond, kind, v, store, label

# facts about skolem functions: name -> {slot: (idx consts, term or callable)}
SCHEMAS = {}
NORMAL = ('val',)

class Obl:
    __slots__ = ('name', 'pc', 'univ', 'goal', 'fn', 'line', 'kind', 'lemmas')
    def __init__(self, name, pc, univ, goal, fn='', line=0, kind='safety', lemmas=()):
        self.name, self.pc, self.univ, self.goal, self.fn, self.line, self.kind, self.lemmas = name, pc, univ, goal, fn, line, kind, lemmas

_shape_cache = {}

import math
NAMED = [(math.sqrt(2 * math.pi), lambda: z3.Const('SQRT_2PI', RS)), (1 / math.sqrt(2), lambda: mul(z3.Q(1, 2), sqrt(z3.RealVal(2)))), (math.sqrt(2), lambda: sqrt(z3.RealVal(2))),
         (math.log(2 * math.pi) / 2, lambda: z3.Const('LN_SQRT_2PI', RS)), (math.log(math.pi / 2) / 2, lambda: z3.Const('LN_SQRT_PI_2', RS)), (math.pi, lambda: z3.Const('PI', RS))]

class Interp:
    MAXPATHS = 400
    def __init__(self, items):
        self.items = items
        self.fns = {}       # name -> [item]
        self.consts = {}
        self.structs = {}
        self.enums = {}
        for it in items:
            if it['kind'] == 'fn': self.fns.setdefault(it['name'], []).append(it)
            elif it['kind'] == 'const': self.consts.setdefault(it['name'], []).append(it)
            elif it['kind'] == 'struct': self.structs[it['name']] = it
            elif it['kind'] == 'enum':
                for v in it['variants']: self.enums.setdefault(v['n'], []).append((it['name'], v))
        self.store = {}
        self.ncell = 0
        self.pc = []
        self.univ = []
        self.specs = {}
        self.generics = {}
        self.dec = None
        self.quiet = 0
        self.obls = []
        self.oblkeys = set()
        self.lz = []
        self.seq = {}
        self.fnstack = []
        self.used = {}      # functions interpreted: qual -> (file,line,end)
        self.calls = {}     # builtin/assumed contracts used
        self.invariants = []   # loop invariant templates
        self.branch_timeout = 400
        self.path_count = 0
        self.depth = 0
        self.hooks = {}
        self.summaries = {}    # name of a function -> contract used instead of its body (verified in its own unit)

    # ------------------------------------------------------------ paths
    def newcell(self, v):
        self.ncell += 1
        self.store[self.ncell] = v
        return self.ncell

    def feasible(self, extra):
        fs = [p for p in self.pc] + [extra]
        r, _ = check_sat(fs, self.branch_timeout)
        if r == z3.unsat: return False
        return True

    def branch(self, cond):
        cond = lift(cond)
        if z3.is_true(cond): return True
        if z3.is_false(cond): return False
        c = z3.simplify(cond)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        if self.dec is None: raise Unsupported("branch outside exploration")
        d = self.dec
        if d['pos'] < len(d['prefix']):
            take, forced = d['prefix'][d['pos']]
        else:
            ft = self.feasible(cond)
            ff = self.feasible(bnot(cond)) if ft else True
            if ft and ff:
                take, forced = True, False
                d['pend'].append(d['prefix'][:d['pos']] + [(False, False)])
            else: take, forced = ft, True
            d['prefix'] = d['prefix'][:d['pos']] + [(take, forced)]
        d['pos'] += 1
        cc = cond if take else bnot(cond)
        self.pc.append(cc)
        if not forced: d['cond'].append(cc)     # a choice forced by the facts at hand is no condition of the path
        return take

    def explore(self, thunk):
        S0, pc0, dec0, univ0, seq0 = self.store, self.pc, self.dec, self.univ, self.seq
        work = [[]]; out = []
        try:
            while work:
                prefix = work.pop()
                self.store = dict(S0); self.pc = list(pc0)
                self.seq = dict(seq0)
                d = {'prefix': list(prefix), 'pos': 0, 'pend': [], 'cond': [], 'new': []}
                self.dec = d
                v = None; lab = None
                try:
                    v = thunk(); kind = 'val'
                except RetEx as e: v, kind = e.v, 'ret'
                except BreakEx as e: v, kind, lab = e.v, 'break', e.label
                except ContEx as e: kind, lab = 'cont', e.label
                except PanicEx as e: v, kind = e, 'panic'
                except Infeasible: kind = None
                work.extend(d['pend'])
                if kind:
                    out.append(Path(self.pc, band(*d['cond']), kind, v, self.store, lab))
                self.path_count += 1
                if len(out) > self.MAXPATHS: raise Unsupported("too many paths")
        finally:
            self.store, self.pc, self.dec = S0, pc0, dec0
            self.seq = seq0
        return out

    # run thunk over all its paths and merge values and stores (for pure-ish code)
    def merged(self, thunk, allow=('val',), store=True):
        base = self.store
        ps = self.explore(thunk)
        live = []
        for p in ps:
            if p.kind == 'panic':
                self.oblige('no panic', bnot(p.cond), p.v.line, p.v.msg)
                continue
            if p.kind not in allow: return ps, None
            live.append(p)
        if not live: raise Infeasible()
        v = live[-1].v
        st = dict(live[-1].store)
        for p in reversed(live[:-1]):
            v = self.mergev(p.cond, p.v, v)
            if store:
                for c in set(p.store) | set(st):
                    a, b = p.store.get(c), st.get(c)
                    if a is b: continue
                    if c not in base: 
                        if a is not None: st[c] = a
                        continue
                    st[c] = self.mergev(p.cond, a, b)
        if store: self.store = st
        # facts assumed in nested paths survive as implications
        n0 = len(self.pc)
        for p in live:
            for f in p.pc[n0:]:
                pass
        if len(live) == 1:
            for f in live[0].pc[n0:]: self.pc.append(f)
        else:
            for p in live:
                for f in p.pc[n0:]:
                    if not any(f.eq(x) for x in conj(p.cond)): self.pc.append(implies(p.cond, f))
        return ps, v

    def mergev(self, c, a, b):
        if a is None and b is None: return None
        if isinstance(a, Place) or isinstance(b, Place):
            if type(a) is type(b) and a is b: return a
        if isinstance(a, It) and isinstance(b, It):
            return It(ite(c, a.n, b.n), lambda i: merge2(c, a.fn(i), b.fn(i)))
        return merge2(c, a, b)

    # ------------------------------------------------------------ obligations and facts
    def assume(self, f):
        f = lift(f)
        if not z3.is_true(f): self.pc.append(f)

    def cur(self):
        return self.fnstack[-1] if self.fnstack else '?'

    def oblige(self, kind, cond, line=0, detail=''):
        cond = lift(cond)
        if z3.is_true(cond): return
        if self.quiet:
            return
        c = z3.simplify(cond)
        if z3.is_true(c): return
        name = f"{self.cur()}: {kind}" + (f" ({detail})" if detail else '')
        o = Obl(name, list(self.pc), list(self.univ), cond, self.cur(), line)
        key = (name, cond.sexpr())
        if key not in self.oblkeys:
            self.oblkeys.add(key)
            self.obls.append(o)
        self.pc.append(cond)

    def sk(self, name, sort=IS, node=None):
        """fresh symbol, a function of the enclosing lazy indices"""
        key = (name, id(node) if node is not None else 0, tuple(l[0] for l in self.lz))
        if not self.lz:
            return fresh('sk!' + name if sort == IS else name, sort), None
        k = self.seq.get(key, 0); self.seq[key] = k + 1
        h = hashlib.md5(repr((key, k)).encode()).hexdigest()[:10]
        idx = [i for l in self.lz for i in l[1]]
        f = z3.Function(f"{name}@{h}", *[IS] * len(idx), sort)
        return f(*idx), (f, idx)

    def skfun(self, name, doms, rng=RS, node=None):
        key = (name, id(node) if node is not None else 0, tuple(l[0] for l in self.lz))
        if not self.lz:
            f = fresh_fun(name, doms, rng)
            return (lambda *a: f(*a)), (f, [])
        k = self.seq.get(key, 0); self.seq[key] = k + 1
        h = hashlib.md5(repr((key, k)).encode()).hexdigest()[:10]
        idx = [i for l in self.lz for i in l[1]]
        f = z3.Function(f"{name}@{h}", *[IS] * len(idx), *doms, rng)
        return (lambda *a: f(*idx, *a)), (f, idx)

    def fact(self, owner, slot, f):
        """record a fact about a symbol made by sk/skfun; f: term, or callable(int)->term (for all indices)"""
        if owner is None or not owner[1]:
            if callable(f): self.univ.append(f)
            else: self.assume(f)
            return
        fn, idx = owner
        nm = fn.name()
        d = SCHEMAS.setdefault(nm, {})
        if slot in d: return
        if all(z3.is_const(i) and not isnum(i) for i in idx) and len({i.get_id() for i in idx}) == len(idx):
            d[slot] = (list(idx), f)

    # ------------------------------------------------------------ lazy evaluation
    def lazy(self, fn, dims, kind='nd', safety=True):
        """array whose element at idx is fn(*idx) evaluated in the current state"""
        snap = dict(self.store); pc = list(self.pc); lid = next(T._cnt); lz0 = list(self.lz); gen = dict(self.generics)
        fst = list(self.fnstack)
        dims = [lift(d) for d in dims]
        seq0 = dict(self.seq)
        def at(*idx):
            s, p, q, d, l, g, fs, sq = self.store, self.pc, self.quiet, self.dec, self.lz, self.generics, self.fnstack, self.seq
            self.store = dict(snap); self.quiet = 1 + q
            self.pc = list(pc)
            for i, n in zip(idx, dims):
                self.pc.append(ge(i, 0)); self.pc.append(lt(i, n))
            self.lz = lz0 + [(lid, [lift(i) for i in idx])]
            self.generics = gen; self.fnstack = list(fst); self.seq = dict(seq0)
            try:
                _, v = self.merged(lambda: self.freeze(fn(*idx)), allow=('val', 'ret'))
                return v
            except Infeasible:
                raise Unsupported("lazy element infeasible")
            finally:
                self.store, self.pc, self.quiet, self.dec, self.lz, self.generics, self.fnstack, self.seq = s, p, q, d, l, g, fs, sq
        a = Arr(dims, at, kind)
        if safety: self.safety(fn, dims, lid)
        return a

    def freeze(self, v):
        v = deref(v)
        if isinstance(v, It): return self.collect(v)
        return v

    def safety(self, fn, dims, lid=None):
        """evaluate the element code once at fresh indices to emit its obligations"""
        idx = [fresh('ix', IS) for _ in dims]
        s, p, l, st = self.store, self.pc, self.lz, dict(self.seq)
        self.store = dict(self.store); self.pc = list(self.pc)
        for i, n in zip(idx, dims): self.pc += [ge(i, 0), lt(i, n)]
        self.lz = self.lz + [(lid if lid is not None else next(T._cnt), idx)]
        try:
            before = self.store
            ps = self.explore(lambda: self.freeze(fn(*idx)))
            for q in ps:
                if q.kind == 'panic': self.oblige('no panic', bnot(q.cond), q.v.line, q.v.msg)
                if q.kind == 'val':
                    for c in before:
                        if q.store.get(c) is not before[c]: raise Unsupported("side effect in lazily evaluated closure")
            return ps
        finally:
            self.store, self.pc, self.lz, self.seq = s, p, l, st

    # ------------------------------------------------------------ functions
    def find_fn(self, name, owner=None, mod=None, trait=None):
        c = self.fns.get(name, [])
        if owner is not None:
            c2 = [f for f in c if f['owner'] == owner]
            if trait: 
                c3 = [f for f in c2 if f.get('trait') == trait]
                if c3: c2 = c3
            if mod and len(c2) > 1:
                m2 = [f for f in c2 if f['mod'] == mod] or [f for f in c2 if f['mod'].split('::')[0] == mod.split('::')[0]]
                if m2: c2 = m2
            if not c2: return None
            return c2[0]
        c2 = [f for f in c if f['owner'] is None]
        if mod:
            c3 = [f for f in c2 if f['mod'] == mod]
            if c3: return c3[0]
            tail = mod.split('::')[-1]
            c3 = [f for f in c2 if f['mod'].split('::')[-1] == tail]
            if c3 and mod.count('::') == 0: return c3[0]
            c3 = [f for f in c2 if f['mod'].split('::')[0] == mod.split('::')[0]]
            if c3: return c3[0]
        return c2[0] if c2 else None

    def qual(self, f): return (f['mod'] + '::' + (f['owner'] + '::' if f['owner'] else '') + f['name'])

    def call_fn(self, f, args, generics=None, selfty=None):
        q = self.qual(f)
        self.used[q] = (f['file'], f['line'], f['end'])
        if len(self.fnstack) > 40: raise Unsupported("recursion")
        if q in self.summaries or f['name'] in self.summaries:
            del self.used[q]
            return (self.summaries.get(q) or self.summaries[f['name']])(self, args)
        env = {}
        if len(args) != len(f['params']): raise Unsupported(f"arity of {q}")
        st = {'env': env, 'mod': f['mod'], 'owner': selfty or f['owner'], 'fn': f}
        for p, a in zip(f['params'], args):
            ty = p['ty'].replace(' ', '')
            if not p.get('self') and not ty.startswith('&mut') and isinstance(a, Place) and 'ViewMut' not in ty:
                a = deref(a)
            if p.get('self') and ty == 'Self': a = deref(a)
            if isinstance(a, z3.ExprRef) and a.sort() == IS and ty in ('f64', 'F', 'f32'): a = toreal(a)
            if not self.bind(p['pat'], a, env, static=True): raise Unsupported("refutable parameter")
        self.fnstack.append(q)
        gen0 = self.generics
        if generics: self.generics = dict(self.generics, **generics)
        fr0 = getattr(self, 'frame', None)
        self.frame = st
        try:
            try:
                v = self.block(f['body'], env)
            except RetEx as e:
                v = e.v
            return self.coerce(v, f['ret'])
        finally:
            self.fnstack.pop(); self.frame = fr0; self.generics = gen0

    def coerce(self, v, ty):
        if isinstance(v, z3.ExprRef) and v.sort() == IS and ty.replace(' ', '') in ('->f64', '->F', 'f64', 'F'): return toreal(v)
        return v

    def call_value(self, f, args, line=0):
        f = deref(f)
        if isinstance(f, Clo):
            if f.native: return f.native(*args)
            env = dict(f.env)
            if len(args) != len(f.params):
                if len(f.params) == 1 and len(args) > 1: args = [Tup(args)]
                elif len(args) == 1 and isinstance(args[0], Tup) and len(args[0].es) == len(f.params): args = args[0].es
                else: raise Unsupported("closure arity")
            for p, a in zip(f.params, args):
                if not self.bind(p, a, env): raise Unsupported("closure param")
            fr0 = self.frame; self.frame = f.mod
            try:
                try: return self.ev(f.body, env)
                except RetEx as e: return e.v
            finally: self.frame = fr0
        if callable(f): return f(*args)
        raise Unsupported(f"call of {type(f).__name__}")

    # ------------------------------------------------------------ patterns
    def bind(self, p, v, env, static=False):
        """returns True/False; may branch"""
        k = p['k']
        if k == 'pid':
            n = p['n']
            if p['sub'] is None and n[:1].isupper() or (n in ('None',)):
                return self.match_variant([n], [], v, env, None)
            if n.isupper() and n in self.consts: 
                return self.branch(eq(deref(v), self.const(n)))
            env[n] = self.newcell(v)
            if p['sub']: return self.bind(p['sub'], v, env)
            return True
        if k == 'pwild' or k == 'prest': return True
        if k == 'pref': return self.bind(p['p'], deref(v), env)
        if k == 'ptuple':
            v0 = v; v = deref(v)
            if isinstance(v, Arr) and v.rank == 1:   # fixed arrays
                es = [v.at(z3.IntVal(i)) for i in range(len(p['ps']))]
            elif isinstance(v, Tup):
                es = v.es
                if isinstance(v0, Place): es = [FieldPlace(v0, str(i)) if not isinstance(x, Place) else x for i, x in enumerate(v.es)]
            else: raise Unsupported(f"tuple pattern on {type(v).__name__}")
            ps = p['ps']
            if any(q['k'] == 'prest' for q in ps):
                j = [q['k'] for q in ps].index('prest')
                tail = ps[j + 1:]
                ps = ps[:j]; 
                for q, e in zip(tail, es[len(es) - len(tail):]):
                    if not self.bind(q, e, env): return False
                es = es[:len(ps)]
            if len(ps) != len(es): raise Unsupported("tuple pattern arity")
            for q, e in zip(ps, es):
                if not self.bind(q, e, env): return False
            return True
        if k == 'pts':
            return self.match_variant(p['p']['segs'], p['ps'], v, env, None)
        if k == 'ppath':
            return self.match_variant(p['p']['segs'], [], v, env, None)
        if k == 'pstruct':
            vd = deref(v)
            if isinstance(vd, (En, SymEn)):
                return self.match_variant(p['p']['segs'], None, v, env, p['fields'])
            for f in p['fields']:
                x = getfield(vd, f['n'])
                if not self.bind(f['p'], x, env): return False
            return True
        if k == 'plit':
            x = self.ev(p['e'], env); vd = deref(v)
            if isinstance(x, str) or isinstance(vd, str):
                if isinstance(x, str) and isinstance(vd, str): return x == vd
                raise Unsupported("string pattern")
            return self.branch(eq(vd, x) if not is_bool(vd) else (vd if z3.is_true(lift(x)) else bnot(vd)))
        if k == 'por':
            for q in p['ps']:
                if self.bind(q, v, env): return True
            return False
        if k == 'prange':
            vd = deref(v); c = []
            if p['lo']: c.append(ge(vd, self.ev(p['lo'], env)))
            if p['hi']: 
                h = self.ev(p['hi'], env)
                c.append(le(vd, h) if p['incl'] else lt(vd, h))
            return self.branch(band(*c))
        if k == 'pslice':
            vd = deref(v)
            ps = p['ps']
            if any(q['k'] == 'prest' for q in ps): raise Unsupported("slice rest")
            if not self.branch(eq(vd.dims[0], len(ps))): return False
            for i, q in enumerate(ps):
                if not self.bind(q, vd.at(z3.IntVal(i)), env): return False
            return True
        raise Unsupported(f"pattern {k}")

    def match_variant(self, segs, ps, v, env, fields):
        name = segs[-1]
        v0 = v; v = deref(v)
        sym = False
        if isinstance(v, SymEn):
            sym = True
            mine = [(g, e) for g, e in v.cases if e.var == name]
            if not mine: return False
            if len(mine) > 1: raise Unsupported("repeated case")
            if len(v.cases) > 1 and not self.branch(mine[0][0]): return False
            v = mine[0][1]
            try:
                if isinstance(v0, (VarPlace, FieldPlace)): v0.set(v); sym = False
            except Exception: pass
        if isinstance(v, En):
            if v.var != name: return False
            if fields is not None:
                for f in fields:
                    if not self.bind(f['p'], v.get(f['n']), env): return False
                return True
            if any(q['k'] == 'prest' for q in ps): ps = [q for q in ps if q['k'] != 'prest']
            for q, (j, e) in zip(ps, enumerate(v.ps)):
                if isinstance(v0, Place) and not isinstance(e, Place) and not sym: e = VariantPlace(v0, j)
                if not self.bind(q, e, env): return False
            return True
        if isinstance(v, St) and v.name == name:
            es = list(v.f.values())
            for q, e in zip(ps, es):
                if not self.bind(q, e, env): return False
            return True
        if is_scalar(v) and (name in self.consts): return self.branch(eq(v, self.const(name)))
        if is_scalar(v) and not ps and name.isupper():
            from .builtins_ import path_const
            x = path_const(self, list(segs), None)
            if x is not None and is_scalar(x): return self.branch(eq(v, x))
        raise Unsupported(f"variant pattern {name} on {type(v).__name__}")

    def const(self, name, owner=None, mod=None):
        c = self.consts.get(name)
        if not c: return None
        if mod:
            c2 = [x for x in c if x['mod'] == mod]
            if c2: c = c2
            else:
                c2 = [x for x in c if x['mod'].split('::')[0] == mod.split('::')[0]]
                if c2: c = c2
        v = self.ev(c[0]['e'], {})
        if isinstance(v, z3.ExprRef) and v.sort() == IS and c[0].get('ty') in ('f64', 'f32'): v = toreal(v)
        return v

    # ------------------------------------------------------------ statements
    def block(self, b, env):
        env = dict(env)
        v = UNIT
        fnlocal = [s for s in b['stmts'] if s['k'] == 'fn']
        for s in fnlocal:
            f = dict(s['f']); f.update(owner=None, mod=self.frame['mod'], file=self.frame['fn']['file'], kind='fn')
            env[f['name']] = self.newcell(Clo(None, None, None, native=lambda *a, f=f: self.call_fn(f, list(a))))
        for s in b['stmts']:
            k = s['k']
            v = UNIT
            if k == 'let':
                self.let(s, env)
            elif k == 'expr':
                x = self.ev(s['e'], env)
                if not s['semi']: v = x
            elif k == 'const':
                env[s['name']] = self.newcell(self.ev(s['e'], env))
            elif k in ('nop', 'fn'): pass
            else: raise Unsupported(f"statement {k}")
        return v

    def let(self, s, env):
        ty = (s['ty'] or '').replace(' ', '')
        if s['init'] is None:
            self.bind(s['pat'], None, env); return
        self.tyhint = ty
        v = self.ev(s['init'], env)
        self.tyhint = ''
        if ty in ('f64', 'F', 'f32') and is_scalar(deref(v)): v = toreal(deref(v))
        if ty.startswith('Vec') and isinstance(v, It): v = self.collect(v)
        # bindings of places coming from by-value expressions are copies unless they are references
        if isinstance(v, Place) and s['init']['k'] in ('index', 'field', 'unary'): v = deref(v)
        if s['else'] is not None:
            if not self.bind(s['pat'], v, env):
                self.ev(s['else'], env)
                raise Infeasible()
            return
        if not self.bind(s['pat'], v, env): raise Infeasible()

    # ------------------------------------------------------------ expressions
    def ev(self, e, env):
        m = getattr(self, 'e_' + e['k'], None)
        if m is None: raise Unsupported(f"expression {e['k']} line {e.get('line')}")
        return m(e, env)

    def evd(self, e, env): return deref(self.ev(e, env))

    def e_lit_int(self, e, env):
        if e.get('suffix') in ('f64', 'f32'): return z3.RealVal(e['v'])
        return z3.IntVal(int(e['v'].replace('_', ''), 0))
    def e_lit_float(self, e, env):
        t = e['v'].replace('_', '')
        if len(t.replace('.', '').strip('0')) >= 15:
            # a literal with all the digits of a double stands for the number it approximates
            for val, mk in NAMED:
                if abs(float(t) - val) <= 4e-16 * abs(val):
                    self.calls['literal ' + t + ' read as the exact constant it approximates'] = 1
                    return mk()
        return z3.RealVal(Fraction(t))
    def e_lit_bool(self, e, env): return z3.BoolVal(e['v'])
    def e_lit_str(self, e, env): return e['v']

    def e_path(self, e, env):
        segs = e['p']['segs']
        if len(segs) == 1:
            n = segs[0]
            if n in env:
                return self.store[env[n]]
        return self.path_value(e, env)

    def path_value(self, e, env):
        from .builtins_ import path_const
        segs = e['p']['segs']; n = segs[-1]
        r = path_const(self, segs, e)
        if r is not None: return r
        owner = segs[-2] if len(segs) > 1 else None
        if n in self.consts:
            c = self.const(n, owner, self.frame['mod'] if self.frame else None)
            if c is not None: return c
        if n in self.enums or n in ('None',):
            vs = self.enums.get(n, [])
            ok = n == 'None' or any((owner in (en, 'Self') or owner is None) for en, v in vs)
            vs = [x for x in vs if x[0] == owner] or vs
            if ok and (n == 'None' or not vs[0][1]['fields']): return En(n)
            if ok: return Clo(None, None, None, native=lambda *a: En(n, [deref(x) for x in a]))
        if n in ('Some', 'Ok', 'Err'): return Clo(None, None, None, native=lambda a: En(n, [a]))
        if owner in ('TerminationStatus', 'TerminationReason'): return En(n)
        if n.isupper() and owner in ('RegressionSpec', 'CorrelationSpec', 'Recombination'): return Opq(n)      # flags: compared by name
        # function value
        fr = self.frame
        def later(*a):
            old, self.frame = self.frame, self.frame or fr
            try: return self.call_path(segs, list(a), e, env)
            finally: self.frame = old
        return Clo(None, None, None, native=later)

    def e_ref(self, e, env):
        if e['mut']: return self.pl(e['e'], env)
        inner = e['e']
        v = self.ev(inner, env)
        return v

    def pl(self, e, env):
        """place of an lvalue expression"""
        k = e['k']
        if k == 'path' and len(e['p']['segs']) == 1 and e['p']['segs'][0] in env:
            cell = env[e['p']['segs'][0]]
            v = self.store[cell]
            if isinstance(v, Place): return v
            return VarPlace(self, cell)
        if k == 'unary' and e['op'] == '*':
            p = self.pl(e['e'], env)
            v = p.get()
            return v if isinstance(v, Place) else p
        if k == 'field':
            b = self.pl(e['e'], env)
            v = deref(b)
            if isinstance(v, (St, Tup)) and not isinstance(v, Opq):
                x = getfield(v, e['f'])
                if isinstance(x, Place): return x
                return FieldPlace(b, e['f'])
            if isinstance(v, Opq) and e['f'] in v.fields: return TmpPlace(v.fields[e['f']])
            raise Unsupported(f"field {e['f']} of {type(v).__name__}")
        if k == 'index':
            b = self.pl(e['e'], env)
            return self.index_place(b, e['i'], env, e.get('line', 0))
        if k in ('paren',): return self.pl(e['e'], env)
        if k == 'ref': return self.pl(e['e'], env)
        v = self.ev(e, env)
        return v if isinstance(v, Place) else TmpPlace(v)

    def index_place(self, b, ie, env, line):
        arr = deref(b)
        if ie['k'] == 'range':
            ax = self.range_axis(ie, arr.dims[0], env, line)
            return ViewPlace(b, [ax] + [('rng', z3.IntVal(0), d, False) for d in arr.dims[1:]])
        i = deref(self.ev(ie, env))
        if isinstance(arr, dict): raise Unsupported("map index")
        if isinstance(i, Tup): idx = [deref(x) for x in i.es]
        elif isinstance(i, Arr): idx = [i.at(z3.IntVal(k)) for k in range(int(numval(i.dims[0])))]
        else: idx = [i]
        if not isinstance(arr, Arr): raise Unsupported(f"index on {type(arr).__name__}")
        if len(idx) != arr.rank: raise Unsupported("index rank")
        for x, d in zip(idx, arr.dims):
            self.oblige('index in bounds', band(ge(x, 0), lt(x, d)), line)
        return elem_place(b, idx)

    def range_axis(self, re_, dim, env, line):
        lo = z3.IntVal(0) if re_['lo'] is None else self.evd(re_['lo'], env)
        hi = dim if re_['hi'] is None else self.evd(re_['hi'], env)
        if isnum(lo) and numval(lo) < 0: lo = add(dim, lo)
        if isnum(hi) and numval(hi) < 0: hi = add(dim, hi)
        def wrap(x, ast):       # a negative bound counts from the end
            if not ast or ast['k'] != 'unary' or isnum(x): return x
            if self.entails(lt(x, 0)): return add(dim, x)
            return x if self.entails(ge(x, 0)) else ite(lt(x, 0), add(dim, x), x)
        lo, hi = wrap(lo, re_['lo']), wrap(hi, re_['hi'])
        if re_['incl']: hi = add(hi, 1)
        self.oblige('slice in bounds', band(le(0, lo), le(lo, hi), le(hi, dim)), line)
        ln = z3.simplify(sub(hi, lo))
        return ('rng', lo, ln, not (hi is dim or hi.eq(dim)))

    def e_index(self, e, env):
        b = self.ev(e['e'], env)
        bp = b if isinstance(b, Place) else TmpPlace(b)
        bd = deref(bp)
        from .builtins_ import index_other
        r = index_other(self, bd, e, env)
        if r is not None: return r
        return self.index_place(bp, e['i'], env, e.get('line', 0)).get() if not isinstance(b, Place) else self.index_place(bp, e['i'], env, e.get('line', 0))

    def e_field(self, e, env):
        b = self.ev(e['e'], env)
        bd = deref(b)
        f = e['f']
        if isinstance(b, Place) and isinstance(bd, (St, Tup)):
            x = getfield(bd, f)
            return x if isinstance(x, Place) else FieldPlace(b, f)
        return getfield(bd, f)

    def e_unary(self, e, env):
        if e['op'] == '*':
            v = self.ev(e['e'], env)
            return v if not isinstance(v, Place) else (v.get() if isinstance(v.get(), Place) else v)
        v = self.evd(e['e'], env)
        if e['op'] == '-':
            if isinstance(v, Arr): return Arr(v.dims, lambda *i: neg(deref(v.at(*i))))
            return neg(v)
        if e['op'] == '!':
            return bnot(v)
        raise Unsupported("unary")

    def e_binary(self, e, env):
        op = e['op']
        if op == '&&':
            l = self.evd(e['l'], env) if e['l']['k'] != 'letc' else lift(self.bind(e['l']['pat'], self.ev(e['l']['e'], env), env))
            if z3.is_false(lift(l)): return z3.BoolVal(False)
            if self.has_effect(e['r']):
                if not self.branch(l): return z3.BoolVal(False)
                return self.evd(e['r'], env) if e['r']['k'] != 'letc' else lift(self.bind(e['r']['pat'], self.ev(e['r']['e'], env), env))
            n = len(self.pc); self.pc.append(lift(l))
            try: r = self.evd(e['r'], env)
            finally: self.guard_tail(n, l)
            return band(l, r)
        if op == '||':
            l = self.evd(e['l'], env)
            if z3.is_true(lift(l)): return z3.BoolVal(True)
            if self.has_effect(e['r']):
                if self.branch(l): return z3.BoolVal(True)
                return self.evd(e['r'], env)
            n = len(self.pc); self.pc.append(bnot(l))
            try: r = self.evd(e['r'], env)
            finally: self.guard_tail(n, bnot(l))
            return bor(l, r)
        if op in ('+=', '-=', '*=', '/=', '%=', '&=', '|=', '^='):
            p = self.pl(e['l'], env)
            r = self.evd(e['r'], env)
            old = deref(p)
            if op == '&=': nv = band(old, r)
            elif op == '|=': nv = bor(old, r)
            else: nv = self.arith(op[0], old, r, e.get('line', 0), inplace=True)
            self.put(p, nv)
            return UNIT
        l = self.evd(e['l'], env); r = self.evd(e['r'], env)
        if op in ('+', '-', '*', '/', '%'): return self.arith(op, l, r, e.get('line', 0))
        if op in ('<', '<=', '>', '>=', '==', '!='): return self.compare(op, l, r)
        if op == '&':
            return band(l, r)
        if op == '|': return bor(l, r)
        if op == '^' and is_bool(l): return bnot(z3.simplify(l == r))
        raise Unsupported(f"operator {op}")

    def guard_tail(self, n, l):
        """facts assumed while evaluating under the extra guard l keep only under that guard"""
        tail = self.pc[n + 1:]
        del self.pc[n:]
        for f in tail: self.pc.append(implies(l, f))

    def has_effect(self, e):
        # conservative syntactic test: closures/calls that may branch, return or mutate
        s = str(e)
        return "'k': 'letc'" in s or "'k': 'try'" in s or "'k': 'assign'" in s or "'k': 'return'" in s or "'k': 'match'" in s or "'k': 'if'" in s or "'m': 'unwrap'" in s

    def put(self, p, v):
        p.set(v)

    def compare(self, op, l, r):
        if isinstance(l, str) and isinstance(r, str):
            b = (l == r)
            return z3.BoolVal(b if op == '==' else not b)
        if isinstance(l, (Arr,)) and isinstance(r, Arr):
            if l.rank != r.rank: raise Unsupported("array comparison")
            c = band(*[eq(a, b) for a, b in zip(l.dims, r.dims)])
            def elt(*ix):
                if len(ix) == l.rank: return self.compare('==', deref(l.at(*ix)), deref(r.at(*ix)))
                return mkred('and', l.dims[len(ix)], lambda i: elt(*ix, i))
            res = band(c, elt())
            if not isnum(res): self.note_and(res)
            return res if op == '==' else bnot(res)
        if isinstance(l, Tup) and isinstance(r, Tup):
            c = band(*[self.compare('==', deref(a), deref(b)) for a, b in zip(l.es, r.es)])
            return c if op == '==' else bnot(c)
        if isinstance(l, (En, SymEn)) and isinstance(r, (En, SymEn)):
            cl = l.cases if isinstance(l, SymEn) else [(z3.BoolVal(True), l)]
            cr = r.cases if isinstance(r, SymEn) else [(z3.BoolVal(True), r)]
            out = []
            for g, a in cl:
                for h, b in cr:
                    if a.var == b.var:
                        out.append(band(g, h, *[self.compare('==', deref(x), deref(y)) for x, y in zip(a.ps, b.ps)]))
            c = bor(*out)
            return c if op == '==' else bnot(c)
        if isinstance(l, St) and isinstance(r, St) and l.name == r.name:
            c = band(*[self.compare('==', deref(l.f[k]), deref(r.f[k])) for k in l.f])
            return c if op == '==' else bnot(c)
        if is_scalar(l) and is_scalar(r):
            if is_bool(l) and is_bool(r) and op in ('==', '!='):
                c = z3.simplify(lift(l) == lift(r))
                return c if op == '==' else bnot(c)
            return {'<': lt, '<=': le, '>': gt, '>=': ge, '==': eq, '!=': ne}[op](l, r)
        raise Unsupported(f"comparison {type(l).__name__} {type(r).__name__}")

    def note_and(self, t): pass

    def arith(self, op, l, r, line=0, inplace=False):
        f = {'+': add, '-': sub, '*': mul, '/': div, '%': mod}[op]
        if is_scalar(l) and is_scalar(r):
            l, r = lift(l), lift(r)
            if is_int(l) and is_int(r):
                if op == '/':
                    if isnum(r) and numval(r) > 0: return div(l, r)
                    self.oblige('divisor non-zero', ne(r, 0), line)
                    return div(l, r)
                if op == '%': self.oblige('divisor non-zero', ne(r, 0), line)
            return f(l, r)
        if isinstance(l, Arr) and is_scalar(r): return Arr(l.dims, lambda *i: f(deref(l.at(*i)), r), 'nd')
        if is_scalar(l) and isinstance(r, Arr): return Arr(r.dims, lambda *i: f(l, deref(r.at(*i))), 'nd')
        if isinstance(l, Arr) and isinstance(r, Arr):
            return self.zipw(f, l, r, line, inplace)
        if isinstance(l, str): return '<str>'
        if isinstance(l, Opq) and op in l.methods: return l.methods[op](self, l, [r])
        from .builtins_ import duration_arith
        raise Unsupported(f"arith {op} {type(l).__name__} {type(r).__name__}")

    def same_dim(self, a, b):
        if a.eq(b): return True
        s = z3.simplify(a - b)
        if isnum(s): return numval(s) == 0
        return None
    def entails(self, c, timeout=400):
        c = z3.simplify(lift(c))
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        r, _ = check_sat(list(self.pc) + [bnot(c)], timeout)
        return r == z3.unsat

    def zipw(self, f, l, r, line=0, inplace=False):
        n = max(l.rank, r.rank)
        pl_, pr = n - l.rank, n - r.rank
        dims = []; mode = []
        for k in range(n):
            a = l.dims[k - pl_] if k >= pl_ else None
            b = r.dims[k - pr] if k >= pr else None
            if a is None: dims.append(b); mode.append('r'); continue
            if b is None: dims.append(a); mode.append('l'); continue
            sd = self.same_dim(a, b)
            if sd: dims.append(a); mode.append('b')
            elif isnum(a, 1) and not inplace: dims.append(b); mode.append('a1')
            elif isnum(b, 1): dims.append(a); mode.append('b1')
            elif self.entails(eq(a, b)): dims.append(a); mode.append('b')
            elif self.entails(eq(b, 1)): dims.append(a); mode.append('b1')
            elif self.entails(eq(a, 1)) and not inplace: dims.append(b); mode.append('a1')
            else:
                c = bor(eq(a, b), eq(b, 1), z3.BoolVal(False) if inplace else eq(a, 1))
                self.oblige('shapes agree', c, line)
                if self.branch(eq(a, b)): dims.append(a); mode.append('b')
                elif self.branch(eq(b, 1)): dims.append(a); mode.append('b1')
                else: dims.append(b); mode.append('a1')
        def fn(*idx):
            li = []; ri = []
            for k in range(n):
                if k >= pl_: li.append(z3.IntVal(0) if mode[k] == 'a1' else idx[k])
                if k >= pr: ri.append(z3.IntVal(0) if mode[k] == 'b1' else idx[k])
            x, y = deref(l.at(*li)), deref(r.at(*ri))
            return f(x, y)
        return Arr(dims, fn, 'nd')

    def e_assign(self, e, env):
        if e['l']['k'] == 'path' and e['l']['p']['segs'] == ['_']:
            self.ev(e['r'], env); return UNIT
        if e['l']['k'] == 'tuple':
            v = self.evd(e['r'], env)
            for l, x in zip(e['l']['es'], v.es): self.pl(l, env).set(x)
            return UNIT
        v = self.ev(e['r'], env)
        if e['r']['k'] != 'ref' and isinstance(v, Place) and not (e['r']['k'] in ('mcall', 'path')): v = deref(v)
        if e['l']['k'] == 'path' and len(e['l']['p']['segs']) == 1 and e['l']['p']['segs'][0] in env:
            cell = env[e['l']['p']['segs'][0]]
            old = self.store[cell]
            if isinstance(old, Place) and not isinstance(v, Place):
                # rebinding of a `mut x` that held a view/reference to a value
                self.store[cell] = v
            else: self.store[cell] = v
            return UNIT
        v = deref(v)
        p = self.pl(e['l'], env)
        old = None
        try: old = deref(p)
        except Exception: pass
        if is_scalar(v) and is_scalar(old) and lift(old).sort() == RS: v = toreal(v)
        p.set(v)
        return UNIT

    def e_cast(self, e, env):
        v = self.evd(e['e'], env); ty = e['ty'].replace(' ', '')
        if ty in ('f64', 'f32', 'F'): return toreal(v) if not is_bool(v) else toreal(ite(v, 1, 0))
        if ty in ('usize', 'u64', 'u32', 'i32', 'i64', 'isize', 'u8', 'u128'):
            v = lift(v)
            if is_int(v): return v
            if is_bool(v): return ite(v, 1, 0)
            if ty in ('usize', 'u64', 'u32', 'u8', 'u128'): return as_usize(v)
            return ite(lt(v, z3.RealVal(0)), neg(z3.ToInt(neg(v))), z3.ToInt(v))
        if '*const' in ty or '*mut' in ty or ty.startswith('&'): return v
        raise Unsupported(f"cast {ty}")

    def e_call(self, e, env):
        f = e['f']
        if f['k'] == 'path':
            segs = f['p']['segs']
            if len(segs) == 1 and segs[0] in env:
                fv = self.store[env[segs[0]]]
                return self.call_value(fv, [self.ev(a, env) for a in e['args']], e.get('line', 0))
            args = [self.ev(a, env) for a in e['args']]
            return self.call_path(segs, args, f, env, e)
        if f['k'] == 'field':
            fv = self.evd(f, env)
            return self.call_value(fv, [self.ev(a, env) for a in e['args']])
        fv = self.ev(f, env)
        return self.call_value(fv, [self.ev(a, env) for a in e['args']])

    def call_path(self, segs, args, f, env, e=None):
        from .builtins_ import path_call
        n = segs[-1]
        owner = segs[-2] if len(segs) > 1 else None
        if owner == 'Self' or (f.get('qself') and f['qself'] == 'Self'): owner = self.frame['owner']
        if owner in self.generics: owner = self.generics[owner]
        if f.get('qself') and f['qself'] in self.generics: owner = self.generics[f['qself']]
        for q in ((owner + '::' + n) if owner else n, n if owner is None or not owner[:1].isupper() else None):
            if q and q in self.specs: return self.spec(q, args, e)
        r = NotImplemented
        if n in ('Some', 'Ok', 'Err') and (owner in (None, 'Option', 'Result')): return En(n, [args[0] if not isinstance(args[0], Place) else args[0]])
        fn = None
        if owner is not None and owner[:1].isupper():
            fn = self.find_fn(n, owner, self.frame['mod'])
            if fn is None and n in self.enums and any(en == owner for en, v in self.enums[n]): return En(n, [deref(a) for a in args])
            if fn is None:
                # trait default
                tr = [g for g in self.fns.get(n, []) if g.get('default')]
                if owner in ('Box', 'Arc', 'Rc', 'Cell', 'RefCell', 'Vec'): pass
                elif tr and any(g['owner'] == owner for g in tr): fn = [g for g in tr if g['owner'] == owner][0]
                elif tr and args and isinstance(deref(args[0]), St): fn = self.method_fn(deref(args[0]), n)
                elif args and isinstance(deref(args[0]), (St,)) and f.get('qself') is None:
                    fn = self.method_fn(deref(args[0]), n)
            if fn is None and n in self.structs: pass
        else:
            cand = self.find_fn(n, None, self.modhint(owner))
            if cand is not None and (owner is None or cand['mod'].split('::')[-1] == owner or owner in ('self', 'super', 'crate', 'utils') or cand['mod'].startswith(owner)
                                     or owner.startswith('egobox')): fn = cand
        if fn is not None:
            return self.call_fn(fn, args, selfty=self.frame['owner'] if fn.get('default') else None)
        if n in self.structs and self.structs[n]['tuple']:
            return St(n, {str(i): deref(a) for i, a in enumerate(args)})
        if n in self.enums and (owner is None or any(en == owner for en, v in self.enums[n])):
            return En(n, [deref(a) for a in args])
        if owner == 'TerminationStatus': return En(n, [deref(a) for a in args])
        if n == 'default' and not args and owner in self.structs and not self.structs[owner]['fields']: return St(owner, {})
        r = path_call(self, segs, owner, n, args, f, e, env)
        if r is not NotImplemented: return r
        raise Unsupported(f"call {'::'.join(segs)} line {f.get('line')}")

    def modhint(self, owner):
        m = self.frame['mod'] if self.frame else None
        if owner and not owner[:1].isupper() and owner not in ('self', 'super', 'crate'):
            if owner.startswith('egobox_'): return owner[7:] + '::x'
            return m.split('::')[0] + '::' + owner if m and any(i == m.split('::')[0] + '::' + owner for i in self.modset()) else m
        return m
    def modset(self):
        if not hasattr(self, '_mods'): self._mods = {i['mod'] for i in self.items}
        return self._mods

    def spec(self, q, args, e):
        self.calls[q] = self.calls.get(q, 0) + 1
        return self.specs[q](self, args, e)

    def method_fn(self, recv, name):
        on = recv.name if isinstance(recv, St) else None
        if on is None and isinstance(recv, En):
            vs = self.enums.get(recv.var)
            on = [en for en, v in vs][0] if vs else None
        if on is None and isinstance(recv, SymEn):
            vs = self.enums.get(recv.cases[0][1].var)
            on = vs[0][0] if vs else None
        if on is None: return None
        f = self.find_fn(name, on, self.frame['mod'] if self.frame else None)
        if f is not None: return f
        # trait default method: the trait must be implemented by the owner, or be a blanket default
        for g in self.fns.get(name, []):
            if g.get('default'): return g
        return None

    def e_mcall(self, e, env):
        from .builtins_ import method, MUTATORS
        n = e['m']
        if n in MUTATORS: recv = self.pl(e['recv'], env)
        else: recv = self.ev(e['recv'], env)
        rd = deref(recv)
        # user-defined
        on = None
        if isinstance(rd, (St, En, SymEn)) :
            on = rd.name if isinstance(rd, St) else None
            if on and f"{on}::{n}" in self.specs:
                args = [self.ev(a, env) for a in e['args']]
                return self.spec(f"{on}::{n}", [recv] + args, e)
            h = getattr(self, 'methods_of', {}).get((on, n))
            if h is not None: return h(self, rd, [self.ev(a, env) for a in e['args']])
            fn = self.method_fn(rd, n)
            if fn is not None:
                args = [self.ev(a, env) for a in e['args']]
                if not isinstance(recv, Place): recv = self.pl(e['recv'], env) if 'mut' in fn['params'][0]['ty'] else recv
                return self.call_fn(fn, [recv] + args, selfty=on if fn.get('default') else None)
        if isinstance(rd, Opq):
            if n in rd.methods:
                args = [self.ev(a, env) for a in e['args']]
                self.calls[f"{rd.name}.{n}"] = self.calls.get(f"{rd.name}.{n}", 0) + 1
                return rd.methods[n](self, rd, args)
            if n in ('clone', 'to_owned', 'as_ref', 'borrow', 'into', 'unwrap'): return rd
        if f"*::{n}" in self.specs:
            args = [self.ev(a, env) for a in e['args']]
            return self.spec(f"*::{n}", [recv] + args, e)
        if isinstance(rd, St) and n in rd.f and isinstance(deref(rd.f[n]), Clo):
            pass
        r = method(self, recv, rd, n, e, env)
        if r is NotImplemented:
            # user trait implemented on foreign types (e.g. extension traits)
            for f in self.fns.get(n, []):
                if f.get('trait') and f['params'] and f['params'][0].get('self'):
                    args = [self.ev(a, env) for a in e['args']]
                    return self.call_fn(f, [recv] + args)
            raise Unsupported(f"method {n} on {type(rd).__name__} line {e.get('line')}")
        return r

    def e_range(self, e, env):
        lo = None if e['lo'] is None else self.evd(e['lo'], env)
        hi = None if e['hi'] is None else self.evd(e['hi'], env)
        return Range(lo, hi, e['incl'])
    def e_tuple(self, e, env): return Tup([self.ev(x, env) if x['k'] == 'ref' else self.val(x, env) for x in e['es']])
    def val(self, x, env):
        v = self.ev(x, env)
        if x['k'] in ('index', 'field', 'unary'): return deref(v)
        return v
    def e_array(self, e, env):
        vs = [self.val(x, env) for x in e['es']]
        return from_list([deref(v) if not isinstance(v, Clo) else v for v in vs], 'vec')
    def e_repeat(self, e, env):
        v = self.evd(e['e'], env); n = self.evd(e['n'], env)
        return Arr([n], lambda i: v, 'vec')
    def e_block(self, e, env):
        if e.get('label'):
            try: return self.block(e, env)
            except BreakEx as b:
                if b.label == e['label']: return b.v if b.v is not None else UNIT
                raise
        return self.block(e, env)

    def cond(self, c, env):
        """branch on a condition expression (may bind pattern variables into env)"""
        if c['k'] == 'letc':
            v = self.ev(c['e'], env)
            return self.bind(c['pat'], v, env)
        if c['k'] == 'binary' and c['op'] == '&&':
            return self.cond(c['l'], env) and self.cond(c['r'], env)
        return self.branch(self.evd(c, env))

    def e_if(self, e, env):
        # try a merge of both arms when they are side-effect-simple; otherwise fork
        if e['c']['k'] != 'letc' and self.simple_arm(e['t']) and (e['e'] is None or self.simple_arm(e['e'])):
            c = None
            if not self.has_effect(e['c']):
                c = z3.simplify(lift(self.evd(e['c'], env)))
                if z3.is_true(c): return self.ev(e['t'], dict(env))
                if z3.is_false(c): return self.ev(e['e'], dict(env)) if e['e'] is not None else UNIT
                if self.mergeable():
                    try:
                        return self.if_merge(c, e, env)
                    except Unmergeable: pass
                env2 = dict(env)
                if self.branch(c): return self.ev(e['t'], env2)
                return self.ev(e['e'], dict(env)) if e['e'] is not None else UNIT
        env2 = dict(env)
        if self.cond(e['c'], env2): return self.ev(e['t'], env2)
        if e['e'] is not None: return self.ev(e['e'], dict(env))
        return UNIT
    def mergeable(self): return False
    def simple_arm(self, b): return True

    def e_letc(self, e, env):
        return lift(self.bind(e['pat'], self.ev(e['e'], env), env))

    def e_match(self, e, env):
        v = self.ev(e['e'], env)
        if isinstance(v, Place) is False: 
            if isinstance(v, SymEn): v = TmpPlace(v)
        for arm in e['arms']:
            env2 = dict(env)
            ok = self.bind(arm['pat'], v, env2)
            if ok and arm['guard'] is not None: ok = self.branch(self.evd(arm['guard'], env2))
            if ok: return self.ev(arm['body'], env2)
        raise PanicEx("match not exhaustive", e.get('line', 0)) if False else Infeasible()

    def e_matches(self, e, env):
        env2 = dict(env)
        ok = self.bind(e['pat'], self.ev(e['e'], env), env2)
        if ok and e['guard'] is not None: ok = self.branch(self.evd(e['guard'], env2))
        return z3.BoolVal(ok)

    def e_closure(self, e, env):
        return Clo(e['params'], e['body'], env, mod=self.frame)

    def e_return(self, e, env): raise RetEx(UNIT if e['e'] is None else self.ev(e['e'], env))
    def e_break(self, e, env): raise BreakEx(None if e['e'] is None else self.evd(e['e'], env), e['label'])
    def e_continue(self, e, env): raise ContEx(e['label'])

    def e_try(self, e, env):
        v = self.ev(e['e'], env)
        vd = deref(v)
        if isinstance(vd, SymEn):
            for i, (g, c) in enumerate(vd.cases):
                if i == len(vd.cases) - 1:
                    self.pc.append(g); vd = c; break
                if self.branch(g): vd = c; break
        if isinstance(vd, En):
            if vd.var in ('Ok', 'Some'): return vd.ps[0]
            raise RetEx(vd)
        raise Unsupported(f"? on {type(vd).__name__}")

    def e_struct(self, e, env):
        segs = e['p']['segs']; n = segs[-1]
        if n == 'Self': n = self.frame['owner']
        f = {x['n']: deref(self.ev(x['e'], env)) for x in e['fields']}
        if n in self.enums and len(segs) > 1 and n not in self.structs:
            return En(n, list(f.values()), list(f.keys()))
        d = {}
        if e['rest'] is not None:
            r = self.evd(e['rest'], env)
            if isinstance(r, St): d.update(r.f)
        d.update(f)
        st = self.structs.get(n)
        if st:
            for fd in st['fields']:
                if fd['n'] in d and fd['ty'].replace(' ', '') in ('f64', 'F') and is_int(d[fd['n']]): d[fd['n']] = toreal(d[fd['n']])
        return St(n, d)

    def e_macro(self, e, env):
        from .builtins_ import macro
        return macro(self, e, env)

    def e_for(self, e, env):
        it = self.to_iter(self.ev(e['e'], env))
        self.loop_over(it, lambda x: self.for_body(e, x, env), e)
        return UNIT

    def for_body(self, e, x, env):
        env2 = dict(env)
        if not self.bind(e['pat'], x, env2): raise Unsupported("for pattern")
        self.block(e['body'], env2)

    def loop_over(self, it, run, node=None):
        from .loops import summarise
        if it.pred is not None:
            def body(i):
                if self.branch(it.pred(i)): run(it.fn(i))
            summarise(self, it.n, body, node)
        else:
            summarise(self, it.n, lambda i: run(it.fn(i)), node)

    def e_while(self, e, env):
        from .loops import while_loop
        while_loop(self, e, env)
        return UNIT

    def e_loop(self, e, env):
        from .loops import while_loop
        return while_loop(self, e, env, loop=True)

    def e_unsupported(self, e, env): raise Unsupported(f"syntax {e.get('raw', '')[:60]}")

    # ------------------------------------------------------------ iterators
    def to_iter(self, v):
        v0 = v
        vd = deref(v)
        if isinstance(vd, It): return vd
        if isinstance(vd, Range):
            hi = vd.hi
            if hi is None: return It(z3.Int('inf!'), lambda i: add(vd.lo, i))
            n = sub(hi, vd.lo)
            if vd.incl: n = add(n, 1)
            n = z3.simplify(n)
            if not isnum(n) and not (isnum(vd.lo, 0) and not vd.incl and (nonneg_dim(hi) or self.entails(ge(hi, 0)))):
                if not self.entails(ge(n, 0)): n = ite(ge(n, 0), n, z3.IntVal(0))
            elif isnum(n) and numval(n) < 0: n = z3.IntVal(0)
            return It(n, lambda i: add(vd.lo, i))
        if isinstance(vd, Arr):
            if vd.rank == 1:
                if isinstance(v0, Place): return It(vd.dims[0], lambda i: elem_place(v0, [i]))
                return It(vd.dims[0], lambda i: vd.at(i))
            if vd.rank == 2 and vd.kind == 'nd':
                # row-major element iteration
                if isnum(vd.dims[1], 1): return It(vd.dims[0], lambda i: vd.at(i, z3.IntVal(0)))
                if isnum(vd.dims[0], 1): return It(vd.dims[1], lambda i: vd.at(z3.IntVal(0), i))
                return It2(vd)
        if isinstance(vd, En) and vd.var in ('Some', 'None'):
            return It(z3.IntVal(1 if vd.var == 'Some' else 0), lambda i: vd.ps[0])
        if isinstance(vd, Opq) and 'iter' in vd.methods: return vd.methods['iter'](self, vd, [])
        raise Unsupported(f"iterate over {type(vd).__name__}")

    def collect(self, it, kind='vec'):
        if isinstance(it, It2): it = It(mul(it.arr.dims[0], it.arr.dims[1]), lambda i: it.arr.at(div(i, it.arr.dims[1]), mod(i, it.arr.dims[1])))
        if it.pred is not None:
            it = self.select(it)
        n = it.n
        if isnum(n) and numval(n) <= 16:
            vals = [self.freeze(it.fn(z3.IntVal(i))) for i in range(int(numval(n)))]
            return from_list(vals, kind)
        return self.lazy(lambda i: it.fn(i), [n], kind)

    def select(self, it, node=None):
        """filtered iterator -> plain iterator through a monotone selection function"""
        pa = self.lazy(lambda i: it.pred(i), [it.n])
        ix = fresh('ix', IS)
        try: c = lift(pa.at(ix))
        except Unsupported: c = None
        if c is not None and self.prover.prove(list(self.pc) + [ix >= 0, ix < it.n], c, list(self.univ), timeout=1500).status == 'proved': return It(it.n, it.fn)
        m = mkred('isum', it.n, lambda i: ite(pa.at(i), 1, 0))
        sel, ow = self.skfun('sel', [IS], IS, node)
        rank, ow2 = self.skfun('rank', [IS], IS, node)
        self.fact(ow, 'm', band(ge(m, 0), le(m, it.n)))
        self.fact(ow, 'r', lambda k: implies(band(ge(k, 0), lt(k, m)), band(ge(sel(k), 0), lt(sel(k), it.n), pa.at(sel(k)), eq(rank(sel(k)), k))))
        self.fact(ow, 'i', lambda i: implies(band(ge(i, 0), lt(i, it.n), pa.at(i)), band(ge(rank(i), 0), lt(rank(i), m), eq(sel(rank(i)), i))))
        self.fact(ow, 'mono', lambda k: implies(band(ge(k, 0), lt(add(k, 1), m)), lt(sel(k), sel(add(k, 1)))))
        return It(m, lambda k: it.fn(sel(k)))

class It2(It):
    """row-major element iterator over a matrix"""
    def __init__(self, arr):
        self.arr = arr; self.n = mul(arr.dims[0], arr.dims[1]); self.pred = None
        self.fn = lambda i: arr.at(div(i, arr.dims[1]), mod(i, arr.dims[1]))

class Unmergeable(Exception): pass

class VariantPlace(Place):
    def __init__(self, base, j): self.base, self.j = base, j
    def get(self):
        b = deref(self.base)
        if isinstance(b, SymEn): raise Unsupported("variant place")
        return b.ps[self.j]
    def set(self, v):
        b = deref(self.base)
        ps = list(b.ps); ps[self.j] = v
        self.base.set(En(b.var, ps, b.names))

def conj(c):
    if z3.is_and(c): return c.children()
    return [c]

def from_list(vals, kind='nd'):
    vals = [lift(v) if isinstance(v, (int, Fraction, bool)) else v for v in vals]
    n = len(vals)
    if n and all(isinstance(v, Arr) for v in vals) and kind == 'nd':
        r = vals[0].rank
        def fn2(i, *rest): return pick(vals, i, lambda a: a.at(*rest))
        return Arr([z3.IntVal(n)] + list(vals[0].dims), fn2, 'nd')
    if any(is_scalar(v) and lift(v).sort() == RS for v in vals) and all(is_scalar(v) for v in vals): vals = [toreal(v) for v in vals]
    return Arr([z3.IntVal(n)], lambda i: pick(vals, i, lambda a: a), kind)

def pick(vals, i, f):
    if isnum(i):
        k = int(numval(i))
        if 0 <= k < len(vals): return f(vals[k])
        raise Unsupported("constant index out of range")
    r = f(vals[-1])
    for k in range(len(vals) - 2, -1, -1): r = merge2(eq(i, k), f(vals[k]), r)
    return r
