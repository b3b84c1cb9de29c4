"""Value domain of the symbolic evaluator."""
import z3
from .terms import *

class Arr:
    """n-d array (or Vec/slice when kind == 'vec'): symbolic dims, index -> value function"""
    __slots__ = ('dims', 'fn', 'kind', 'memo', 'meta')
    def __init__(self, dims, fn, kind='nd', meta=None):
        self.dims = tuple(lift(d) for d in dims); self.fn = fn; self.kind = kind; self.memo = {}; self.meta = meta
    @property
    def rank(self): return len(self.dims)
    def at(self, *idx):
        idx = tuple(lift(i) for i in idx)
        assert len(idx) == len(self.dims), f"rank mismatch {len(idx)} vs {len(self.dims)}"
        k = tuple(i.get_id() for i in idx)
        h = self.memo.get(k)
        if h is not None and all(a.eq(b) for a, b in zip(h[0], idx)): return h[1]
        v = self.fn(*idx)
        if isinstance(v, (int, Fraction, float, bool)) : v = lift(v)
        self.memo[k] = (idx, v)
        return v
    def __repr__(self): return f"Arr{self.dims}"

class Tup:
    __slots__ = ('es',)
    def __init__(self, es): self.es = list(es)
    def __repr__(self): return f"Tup{self.es}"

class St:
    __slots__ = ('name', 'f')
    def __init__(self, name, f): self.name = name; self.f = dict(f)
    def __repr__(self): return f"{self.name}{self.f}"

class En:
    __slots__ = ('var', 'ps', 'names')
    def __init__(self, var, ps=(), names=None): self.var = var; self.ps = list(ps); self.names = names
    def __repr__(self): return f"{self.var}{self.ps}"
    def get(self, n):
        return self.ps[self.names.index(n)] if self.names else self.ps[int(n)]

class SymEn:
    """guarded union of En values; guards are exhaustive and exclusive"""
    __slots__ = ('cases',)
    def __init__(self, cases): self.cases = list(cases)

class Clo:
    __slots__ = ('params', 'body', 'env', 'native', 'mod')
    def __init__(self, params, body, env, native=None, mod=None):
        self.params, self.body, self.env, self.native, self.mod = params, body, env, native, mod

class Opq:
    """opaque object; behaviour given by assumed contracts: methods name -> fn(ip, self, args)"""
    __slots__ = ('name', 'methods', 'fields')
    def __init__(self, name, methods=None, fields=None): self.name = name; self.methods = methods or {}; self.fields = fields or {}
    def __repr__(self): return f"<{self.name}>"

class Rng:
    __slots__ = ('name', 'hook')
    def __init__(self, name='rng', hook=None): self.name = name; self.hook = hook

class Range:
    __slots__ = ('lo', 'hi', 'incl')
    def __init__(self, lo, hi, incl=False): self.lo, self.hi, self.incl = lo, hi, incl

class SliceInfo:
    def __init__(self, items): self.items = items

class It:
    """iterator over n items; fn(i) gives a value or a Place; filters: list of predicates applied in order"""
    __slots__ = ('n', 'fn', 'pred', 'idxd')
    def __init__(self, n, fn, pred=None): self.n = lift(n); self.fn = fn; self.pred = pred

class Zp:
    __slots__ = ('prods', 'indexed', 'dims')
    def __init__(self, prods, indexed, dims): self.prods, self.indexed, self.dims = prods, indexed, dims

UNIT = Tup([])
def NONE(): return En('None')
def SOME(v): return En('Some', [v])
def OK(v): return En('Ok', [v])
def ERR(v): return En('Err', [v])

# ---------------------------------------------------------------- places
class Place:
    def get(self): raise NotImplementedError
    def set(self, v): raise NotImplementedError

class VarPlace(Place):
    __slots__ = ('ip', 'cell')
    def __init__(self, ip, cell): self.ip, self.cell = ip, cell
    def get(self): return self.ip.store[self.cell]
    def set(self, v): self.ip.store[self.cell] = v

class TmpPlace(Place):
    """place over a temporary"""
    def __init__(self, v): self.v = v
    def get(self): return self.v
    def set(self, v): self.v = v

class FieldPlace(Place):
    __slots__ = ('base', 'f')
    def __init__(self, base, f): self.base, self.f = base, f
    def get(self):
        b = self.base.get()
        if isinstance(b, Place): b = b.get()
        return getfield(b, self.f)
    def set(self, v):
        b = self.base.get()
        if isinstance(b, Place):
            FieldPlace(b, self.f).set(v); return
        self.base.set(setfield(b, self.f, v))

def getfield(b, f):
    if isinstance(b, Tup): return b.es[int(f)]
    if isinstance(b, St):
        if f in b.f: return b.f[f]
        raise Unsupported(f"field {f} of {b.name}")
    if isinstance(b, Opq) and f in b.fields: return b.fields[f]
    if isinstance(b, Range): return b.lo if f == 'start' else b.hi
    if isinstance(b, En) and b.names and f in b.names: return b.get(f)
    raise Unsupported(f"field {f} of {type(b).__name__}")

def setfield(b, f, v):
    if isinstance(b, Tup):
        es = list(b.es); es[int(f)] = v; return Tup(es)
    if isinstance(b, St):
        d = dict(b.f); d[f] = v; return St(b.name, d)
    raise Unsupported(f"set field {f} of {type(b).__name__}")

class ViewPlace(Place):
    """view of an array place; axes: per base axis ('fix', t) or ('rng', lo, len)"""
    __slots__ = ('base', 'axes')
    def __init__(self, base, axes): self.base, self.axes = base, axes
    def scalar(self): return all(a[0] == 'fix' for a in self.axes)
    def get(self):
        b = deref(self.base.get())
        return view_of(b, self.axes)
    def set(self, v):
        b = deref(self.base.get())
        v = deref(v)
        axes = self.axes
        old = b
        def fn(*idx):
            conds = []; vi = []
            for a, i in zip(axes, idx):
                if a[0] == 'fix': conds.append(eq(i, a[1]))
                else:
                    if not (isnum(a[1], 0)): conds.append(ge(i, a[1]))
                    if not a[2].eq(z3.simplify(lift(old.dims[len(vi)])) if False else a[2]) or True:
                        pass
                    conds.append(lt(i, add(a[1], a[2])) if a[3] else z3.BoolVal(True))
                    vi.append(sub(i, a[1]))
            c = band(*conds)
            if z3.is_false(c): return old.at(*idx)
            nv = v.at(*vi) if vi else v
            if z3.is_true(c): return nv
            return merge2(c, nv, old.at(*idx))
        nb = Arr(old.dims, fn, old.kind)
        if isinstance(self.base.get(), Place): self.base.get().set(nb)
        else: self.base.set(nb)

def view_of(b, axes):
    if all(a[0] == 'fix' for a in axes): return b.at(*[a[1] for a in axes])
    dims = [a[2] for a in axes if a[0] == 'rng']
    def fn(*vi):
        it = iter(vi); idx = []
        for a in axes:
            idx.append(a[1] if a[0] == 'fix' else add(a[1], next(it)))
        return b.at(*idx)
    return Arr(dims, fn, 'nd' if b.kind == 'nd' else b.kind)

def elem_place(base, idx):
    return ViewPlace(base, [('fix', lift(i)) for i in idx])
def axis_place(base, arr, axis, i):
    return ViewPlace(base, [('fix', lift(i)) if k == axis else ('rng', z3.IntVal(0), d, False) for k, d in enumerate(arr.dims)])

def deref(v):
    while isinstance(v, Place): v = v.get()
    return v

class Kept:
    """stands for an element a loop body leaves alone; conds: the conditions under which it is written"""
    def __init__(self): self.conds = []

class OwnArr(Arr):
    """state of an array inside a loop whose iterations only touch their own element"""
    __slots__ = ('ix', 'base', 'probe', 'kept')
    def __init__(self, base, ix):
        self.ix, self.base, self.probe, self.kept = ix, base, None, None
        def fn(i):
            if i.eq(ix): return base.at(ix)
            if self.probe is not None and i.eq(self.probe): return self.kept
            raise Unsupported('the loop reads another element than its own')
        Arr.__init__(self, base.dims, fn, base.kind)

def merge2(c, a, b):
    a, b = deref(a), deref(b)
    c = lift(c)
    if z3.is_true(c): return a
    if z3.is_false(c): return b
    if a is b: return a
    if isinstance(a, Kept) and isinstance(b, Kept): return a
    if isinstance(b, Kept): b.conds.append(c); return b
    if isinstance(a, Kept): a.conds.append(bnot(c)); return a
    if is_scalar(a) and is_scalar(b): return ite(c, a, b)
    if isinstance(a, Arr) and isinstance(b, Arr) and a.rank == b.rank:
        dims = [ite(c, x, y) for x, y in zip(a.dims, b.dims)]
        return Arr(dims, lambda *i: merge2(c, a.at(*i), b.at(*i)), a.kind)
    if isinstance(a, Tup) and isinstance(b, Tup) and len(a.es) == len(b.es):
        return Tup([merge2(c, x, y) for x, y in zip(a.es, b.es)])
    if isinstance(a, St) and isinstance(b, St) and a.name == b.name:
        return St(a.name, {k: merge2(c, a.f[k], b.f[k]) for k in a.f})
    if isinstance(a, En) and isinstance(b, En) and a.var == b.var and len(a.ps) == len(b.ps):
        return En(a.var, [merge2(c, x, y) for x, y in zip(a.ps, b.ps)], a.names)
    if isinstance(a, (En, SymEn)) and isinstance(b, (En, SymEn)):
        ca = a.cases if isinstance(a, SymEn) else [(z3.BoolVal(True), a)]
        cb = b.cases if isinstance(b, SymEn) else [(z3.BoolVal(True), b)]
        out = []
        for g, e in [(band(c, g), e) for g, e in ca] + [(band(bnot(c), g), e) for g, e in cb]:
            for k, (g2, e2) in enumerate(out):
                if e2.var == e.var and len(e2.ps) == len(e.ps):
                    out[k] = (bor(g2, g), En(e.var, [merge2(g, x, y) for x, y in zip(e.ps, e2.ps)], e.names)); break
            else: out.append((g, e))
        return SymEn(out)
    if isinstance(a, str) and isinstance(b, str):
        return a if a == b else '<str>'
    if isinstance(a, Opq) and isinstance(b, Opq) and a.name == b.name: return a
    raise Unsupported(f"merge {type(a).__name__} {type(b).__name__}")

def mapv(v, f):
    """apply f to every scalar term of a value (lazily for arrays)"""
    if isinstance(v, Place): return v
    if is_scalar(v): return f(lift(v))
    if isinstance(v, Arr): return Arr([f(d) for d in v.dims], lambda *i: mapv(v.at(*i), f), v.kind, v.meta)
    if isinstance(v, Tup): return Tup([mapv(x, f) for x in v.es])
    if isinstance(v, St): return St(v.name, {k: mapv(x, f) for k, x in v.f.items()})
    if isinstance(v, En): return En(v.var, [mapv(x, f) for x in v.ps], v.names)
    if isinstance(v, SymEn): return SymEn([(f(g), mapv(e, f)) for g, e in v.cases])
    return v

def opaque_like(v, name):
    """fresh unknown value of the same shape; returns (value, list of leaf symbols)"""
    if is_scalar(v):
        v = lift(v)
        return fresh(name, v.sort())
    if isinstance(v, Arr):
        # probe the element kind
        probe = deref(v.at(*[fresh('pr', IS) for _ in v.dims])) if v.dims else None
        return opaque_arr(v.dims, probe, name, v.kind)
    if isinstance(v, Tup): return Tup([opaque_like(deref(x), name) for x in v.es])
    if isinstance(v, St): return St(v.name, {k: opaque_like(deref(x), name + '_' + k) for k, x in v.f.items()})
    if isinstance(v, En) and all(is_scalar(x) or isinstance(x, (Arr, Tup)) for x in v.ps) and v.var not in ('Some', 'None'):
        return En(v.var, [opaque_like(x, name) for x in v.ps], v.names)
    raise Unsupported(f"havoc {type(v).__name__}")

def opaque_arr(dims, probe, name, kind='nd'):
    if is_scalar(probe):
        probe = lift(probe)
        f = fresh_fun(name, [IS] * len(dims), probe.sort())
        return Arr(dims, lambda *i: f(*i), kind, meta=f)
    if isinstance(probe, Tup):
        parts = [opaque_arr(dims, deref(x), name, kind) for x in probe.es]
        return Arr(dims, lambda *i: Tup([p.at(*i) for p in parts]), kind)
    if isinstance(probe, Arr):
        inner = deref(probe.at(*[fresh('pr', IS) for _ in probe.dims]))
        if not is_scalar(inner): raise Unsupported("opaque nested")
        f = fresh_fun(name, [IS] * (len(dims) + probe.rank), lift(inner).sort())
        pd = probe.dims
        return Arr(dims, lambda *i: Arr(pd, lambda *j: f(*i, *j), probe.kind), kind)
    raise Unsupported(f"opaque array of {type(probe).__name__}")

def fsym(name, rank, sort=RS):
    f = z3.Function(name, *([IS] * rank), sort)
    return f

def sym_arr(name, dims, sort=RS, kind='nd'):
    f = fsym(name, len(dims), sort)
    return Arr(dims, lambda *i: f(*i), kind, meta=f)
