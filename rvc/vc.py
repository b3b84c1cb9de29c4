"""Contract harness: parse the real sources, run functions under symbolic inputs, collect and discharge obligations."""
import json, os, subprocess, time, traceback, z3
from . import terms as T
from .terms import *
from .values import *
from .interp import Interp, Obl, Path, SCHEMAS
from .prover import Prover, Result

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('RVC_REPO', '/repo')
FRONT = os.path.join(ROOT, 'target/frontend/debug/rvc-frontend')

def sources():
    out = []
    for c in ('doe', 'gp', 'moe', 'ego'):
        for d, _, fs in os.walk(f'{REPO}/crates/{c}/src'):
            out += [os.path.join(d, f) for f in sorted(fs) if f.endswith('.rs') and f != 'vp_hooks.rs']
    return sorted(out)

_items = None
def load():
    global _items
    if _items is None:
        p = subprocess.run([FRONT, REPO] + sources(), capture_output=True, text=True, check=True)
        j = json.loads(p.stdout)
        if j['errors']: raise RuntimeError(f"front end: {j['errors']}")
        _items = j['items']
    return _items

class Lost(Exception):
    """a function a contract is anchored on is gone"""

class V:
    """one verification unit"""
    def __init__(self, pid, name, timeout=8000):
        self.pid, self.name = pid, name
        self.items = load()
        self.ip = Interp(self.items)
        self.ip.prover = Prover(timeout)
        self.prover = self.ip.prover
        self.results = []      # (obligation name, status, backend, time, detail)
        self.assumptions = []
        self.pre = []
        self.lemmas = []
        self.errors = []
        self.safety_on = True
        self.covers = 0

    # inputs
    def dim(self, name, lo=1):
        c = z3.Int('d_' + name)
        T.NONNEG.add('d_' + name)
        self.require(c >= lo)
        return c
    def int(self, name): return z3.Int(name)
    def real(self, name): return z3.Real(name)
    def bool(self, name): return z3.Bool(name)
    def arr(self, name, dims, sort=RS, kind='nd'): return sym_arr(name, dims, sort, kind)
    def ix(self, name, n):
        """universally quantified index below n"""
        c = fresh('ix', IS)
        self.require(band(ge(c, 0), lt(c, n)))
        return c
    def require(self, c): self.ip.pc.append(lift(c)); self.pre.append(lift(c))
    def forall(self, f): self.ip.univ.append(f)
    def assume(self, text): self.assumptions.append(text)

    def fn(self, name, owner=None, mod=None, trait=None):
        f = self.ip.find_fn(name, owner, mod, trait)
        if f is None or (mod and not f['mod'].startswith(mod.split('::')[0])): raise Lost(f"{owner + '::' if owner else ''}{name}")
        return f

    def call(self, name, args, owner=None, mod=None, generics=None, trait=None):
        """paths of the real function on the given arguments; places are given as cells"""
        f = self.fn(name, owner, mod, trait)
        ip = self.ip
        paths = ip.explore(lambda: ip.call_fn(f, args, generics))
        out = []
        n0 = len(ip.pc)
        for p in paths:
            if p.kind == 'panic':
                self.check_obl(Obl(f"{f['name']}: no panic", p.pc, list(ip.univ), z3.BoolVal(False), name, p.v.line, detail_(p.v)) if False else
                               Obl(f"{name}: no panic ({p.v.msg})", p.pc, list(ip.univ), z3.BoolVal(False), name, p.v.line))
                continue
            out.append(PathRes(self, p))
        self.flush()
        if not out: raise Unsupported(f"{name}: no feasible path")
        return out

    def cell(self, v):
        c = self.ip.newcell(v)
        return VarPlace(self.ip, c)

    def flush(self):
        obls, self.ip.obls = self.ip.obls, []
        if not self.safety_on: return
        for o in obls: self.check_obl(o)

    def check_obl(self, o):
        if os.environ.get('SHOW') and os.environ['SHOW'] in o.name:
            T.clear_cache()
            g = canon(o.goal)
            if z3.is_eq(g) or z3.is_eq(o.goal): show(o.goal.arg(0)); print('=='); show(o.goal.arg(1))
            else: show(g)
        r = self.prover.prove(o.pc, o.goal, o.univ, lemmas=self.lemmas)
        if os.environ.get('TRACE'): print(f"{r.status} {r.time:.1f}s {o.name}", flush=True)
        if r.status == 'refuted' and getattr(self.ip, 'weak', False): r.status = 'unknown'     # a loop was summarised incompletely
        self.results.append((o.name, r.status, r.backend, r.time, model_str(r.model) if r.model is not None else r.detail))
        return r

    def ixfree(self, n):
        """fresh index without range facts"""
        return fresh('ix', IS)
    def ensure(self, name, goal, pc=None, univ=None, extra=()):
        pc = list(self.ip.pc if pc is None else pc) + [lift(e) for e in extra]
        o = Obl(name, pc, list(self.ip.univ if univ is None else univ), lift(goal))
        return self.check_obl(o)

    def vacuity(self):
        """the preconditions must be satisfiable"""
        fs = list(self.pre)
        r, _ = check_sat(fs + fun_axioms(fs), 3000)
        if r == z3.unsat: self.results.append(('preconditions are satisfiable', 'refuted', 'z3', 0, 'unsat'))

class PathRes:
    def __init__(self, v, p): self.v, self.p = v, p
    @property
    def value(self): return deref_in(self.v.ip, self.p.v, self.p.store)
    def get(self, place): 
        ip = self.v.ip; s = ip.store; ip.store = self.p.store
        try: return deref(place)
        finally: ip.store = s
    def ensure(self, name, goal, extra=()):
        if callable(goal): 
            with self: goal = goal()
        return self.v.ensure(name, goal, list(self.p.pc) + [lift(e) for e in extra])
    def __enter__(self):
        ip = self.v.ip
        self._s = (ip.store, ip.pc)
        ip.store, ip.pc = dict(self.p.store), list(self.p.pc)
        return self
    def __exit__(self, *a):
        ip = self.v.ip
        ip.store, ip.pc = self._s
    def ix(self, n):
        """fresh universally quantified index (in this path only)"""
        c = fresh('ix', IS)
        self.p.pc.append(band(ge(c, 0), lt(c, n)))
        return c

def deref_in(ip, v, store):
    s = ip.store; ip.store = store
    try: return deref(v)
    finally: ip.store = s

def model_str(m):
    try:
        out = []
        for d in m.decls():
            n = d.name()
            if d.arity() == 0 and not n.startswith(('sk!', 'bv')): out.append(f"{n}={m[d]}")
        return '; '.join(sorted(out))[:600]
    except Exception: return ''

def show(t, ind=0, out=print):
    c = canon(t)
    out(' ' * ind + infix(c))
    for r in T.reds_of(c): 
        out(' ' * ind + f"{r.sym} = {r.kind} {r.n} {r.bv}:"); show(r.body, ind + 4, out)

def infix(t):
    ch = [infix(x) for x in t.children()]
    n = t.decl().name() if z3.is_app(t) else str(t)
    if not ch: return str(t)
    if n in ('+', '*', '-', '/', '<=', '>=', '<', '>', '=', 'and', 'or') and len(ch) > 1: return '(' + f' {n} '.join(ch) + ')'
    return n + '(' + ', '.join(ch) + ')'
