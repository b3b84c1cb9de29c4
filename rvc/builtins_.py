"""Trusted contracts of std / ndarray / ndarray-stats / rand / linfa operations used by the code."""
import z3, hashlib
from . import terms as T, tensor
from .terms import *
from .values import *
from .interp import from_list, It2, PanicEx, RetEx, Infeasible, SCHEMAS, BreakEx

MUTATORS = {'assign', 'push', 'insert', 'fill', 'swap', 'sort', 'sort_by', 'sort_unstable_by', 'sort_unstable', 'sort_by_key', 'mapv_inplace', 'map_inplace',
            'row_mut', 'slice_mut', 'column_mut', 'view_mut', 'iter_mut', 'rows_mut', 'columns_mut', 'axis_iter_mut',
            'outer_iter_mut', 'index_axis_mut', 'diag_mut', 'shuffle', 'extend', 'remove', 'swap_remove', 'pop', 'clear',
            'truncate', 'as_mut', 'get_mut', 'copy_from_slice', 'zip_mut_with', 'take', 'retain', 'dedup', 'append',
            'last_mut', 'first_mut', 'reverse', 'as_slice_mut', 'lanes_mut', 'chunks_mut', 'next', 'replace', 'get_or_insert_with',
            'clone_from', 'push_row', 'push_column', 'reborrow', 'exact_chunks_mut', 'par_iter_mut', 'remove_axis', 'swap_axes', 'gen', 'gen_range', 'sample', 'random', 'invert_axis', 'split_at_mut', 'resize', 'drain'}
ID_METHODS = {'clone', 'to_owned', 'view', 'into_owned', 'to_vec', 'into_raw_vec', 'as_slice', 'as_ref', 'into', 'to_string', 'as_standard_layout',
              'copied', 'cloned', 'borrow', 'as_str', 'with_lapack', 'without_lapack', 'view_mut', 'as_mut', 'as_slice_mut', 'reborrow', 'into_dyn', 'deref', 'as_deref', 'as_bytes',
              'as_array', 'into_boxed_slice', 'into_iter_', 'by_ref', 'as_slice_memory_order', 'to_shape_', 'into_vec', 'into_inner', 'unwrap_or_default_', 'as_dyn', 'into_remove_axis_'}

class Axis:
    def __init__(self, k): self.k = k
class Newaxis: pass

def axis_of(a):
    a = deref(a)
    if isinstance(a, Axis): return a.k
    raise Unsupported("axis")

def path_const(ip, segs, e):
    n = segs[-1]; o = segs[-2] if len(segs) > 1 else None
    if n == 'PI': return z3.Const('PI', RS)
    if o in ('consts', 'f64') or o is None or o in ('F', 'f32'):
        if n == 'SQRT_2': return sqrt(z3.RealVal(2))
        if n == 'LN_2': return uf('ln', z3.RealVal(2))
        if n in ('LN_10', 'E', 'FRAC_1_SQRT_2', 'FRAC_2_SQRT_PI', 'FRAC_PI_2', 'LOG10_E', 'LOG10_2'): return z3.Const('const_' + n, RS)
    if o in ('f64', 'F', 'f32'):
        if n == 'EPSILON': return z3.RealVal(Fraction(1, 2 ** 52))
        if n == 'INFINITY': return INF(ip)
        if n == 'NEG_INFINITY': return neg(INF(ip))
        if n in ('MAX',): return z3.Const('F64_MAX', RS)
        if n in ('MIN_POSITIVE',): return z3.RealVal(Fraction(1, 2 ** 1022))
        if n == 'NAN': return z3.Const('F64_NAN', RS)
        if n == 'MIN': return neg(z3.Const('F64_MAX', RS))
    if o in ('usize', 'u64', 'i32', 'u32', 'i64') and n in ('MAX', 'MIN'):
        if n == 'MAX': return z3.IntVal({'usize': 2 ** 64 - 1, 'u64': 2 ** 64 - 1, 'i32': 2 ** 31 - 1, 'u32': 2 ** 32 - 1, 'i64': 2 ** 63 - 1}[o])
        return z3.IntVal({'usize': 0, 'u64': 0, 'i32': -2 ** 31, 'u32': 0, 'i64': -2 ** 63}[o])
    if n == 'Upper' or n == 'Lower' or n == 'NewAxis':
        if n == 'NewAxis': return Newaxis()
        return En(n)
    if o == 'Ordering' or n in ('Less', 'Equal', 'Greater'):
        if n in ('Less', 'Equal', 'Greater'): return En(n)
    return None

def INF(ip):
    c = z3.Const('INF', RS)
    return c

def erfc(a):
    """contract of libm::erfc: 2 Phi(-sqrt(2) a)"""
    a = toreal(a)
    u = canon(neg(mul(sqrt(z3.RealVal(2)), a)))
    return mul(z3.RealVal(2), ncdf(u))

def numf(op):
    return lambda a, b: op(a, b)

SCAL1 = {'exp': exp, 'ln': ln, 'log10': log10, 'sqrt': sqrt, 'abs': absr, 'floor': floor, 'ceil': ceil, 'round': round_,
         'signum': signum, 'sin': lambda a: uf('sin', toreal(a)), 'cos': lambda a: uf('cos', toreal(a)), 'ln_1p': lambda a: ln(add(z3.RealVal(1), a)),
         'recip': lambda a: div(z3.RealVal(1), a), 'erfc': lambda a: erfc(a), 'erf': lambda a: uf('erf', toreal(a)), 'tanh': lambda a: uf('tanh', toreal(a)),
         'exp_m1': lambda a: sub(exp(a), z3.RealVal(1)), 'exp2': lambda a: uf('pow', z3.RealVal(2), a), 'to_f64': lambda a: SOME(a), 'to_radians': lambda a: uf('rad', a), 'trunc': lambda a: ite(ge(a, z3.RealVal(0)), floor(a), ceil(a))}

LIBM = {'log': ln, 'exp': exp, 'expm1': lambda a: sub(exp(a), z3.RealVal(1)), 'log1p': lambda a: ln(add(z3.RealVal(1), a)), 'sqrt': sqrt, 'fabs': absr, 'log10': log10}

def method(ip, recv, v, n, e, env):
    A = e['args']
    line = e.get('line', 0)
    def arg(i): return deref(ip.ev(A[i], env))
    def rarg(i): return ip.ev(A[i], env)
    if n in ID_METHODS and not A:
        if isinstance(v, It) and n in ('copied', 'cloned'): return It(v.n, lambda i: deref(v.fn(i)), v.pred) if not isinstance(v, It2) else v
        if n in ('view_mut', 'as_mut', 'as_slice_mut', 'reborrow'):
            if isinstance(v, (En, SymEn)):
                if isinstance(v, En) and v.var == 'Some': return En('Some', [VariantP(recv, 0)])
                if isinstance(v, En): return v
                raise Unsupported("as_mut on unknown option")
            if n == 'as_slice_mut': return SOME(recv)
            return recv
        if n == 'as_slice' and isinstance(v, Arr): return SOME(v) if v.kind == 'nd' else v
        if n == 'to_string': return v if isinstance(v, str) else '<str>'
        if n == 'to_vec' and isinstance(v, Arr) and v.rank == 1: return Arr(v.dims, v.fn, 'vec', v.meta)
        if n == 'into_raw_vec' and isinstance(v, Arr): 
            return ip.collect(ip.to_iter(v))
        if isinstance(v, It) and n in ('to_vec', 'to_owned'): return ip.collect(v)
        return v
    if is_scalar(v): return m_scalar(ip, lift(v), n, arg, A, e, env)
    if isinstance(v, (En, SymEn)): return m_enum(ip, recv, v, n, arg, rarg, A, e, env)
    if isinstance(v, Zp): return m_zip(ip, v, n, arg, rarg, A, e, env)
    if isinstance(v, It) or isinstance(v, Range): return m_iter(ip, ip.to_iter(recv if isinstance(v, It) else v), n, arg, rarg, A, e, env)
    if isinstance(v, Arr): return m_arr(ip, recv, v, n, arg, rarg, A, e, env, line)
    if isinstance(v, Rng): return m_rng(ip, v, n, arg, A, e, env)
    if isinstance(v, str): return m_str(ip, v, n, arg, A)
    if isinstance(v, Dist): 
        if n == 'sample': return v.draw(ip, e)
        if n in ('inverse_cdf',): return uf('nppf', arg(0))
        if n == 'cdf': return ncdf(arg(0))
        if n == 'pdf': return npdf(arg(0))
    if isinstance(v, Perm): return m_perm(ip, v, n, arg, A, e)
    if isinstance(v, Tup) and n in ('clone', 'into', 'f'): return v
    if isinstance(v, Arr0): return NotImplemented
    return NotImplemented

class VariantP(Place):
    def __init__(self, base, j): self.base, self.j = base, j
    def get(self): return deref(self.base).ps[self.j]
    def set(self, x):
        b = deref(self.base); ps = list(b.ps); ps[self.j] = x
        self.base.set(En(b.var, ps, b.names))

class Arr0: pass
class Dist:
    def __init__(self, kind, lo=None, hi=None): self.kind, self.lo, self.hi = kind, lo, hi
    def draw(self, ip, node):
        if self.kind == 'uniform':
            x, ow = ip.sk('u', RS, node)
            c = band(le(self.lo, x), lt(x, self.hi))
            ip.fact(ow, 'r', c)
            if ow is not None: ip.assume(c) if False else None
            return x
        if self.kind == 'normal':
            x, ow = ip.sk('g', RS, node)
            return x
        raise Unsupported("distribution")
class Perm:
    """sorting permutation"""
    def __init__(self, f): self.f = f

def m_perm(ip, v, n, arg, A, e): return NotImplemented

def m_str(ip, v, n, arg, A):
    if n == 'is_empty': return z3.BoolVal(v == '')
    if n in ('len',): return z3.Int('strlen!')
    return '<str>'

def m_scalar(ip, v, n, arg, A, e, env):
    if n in SCAL1 and not A: return SCAL1[n](v)
    if n in ('powi', 'pow'):
        k = arg(0)
        if isnum(k):
            kv = int(numval(k))
            if kv >= 0 and kv <= 8: return powr(v, k) if v.sort() == RS else ipow(v, kv)
            if kv < 0: return div(z3.RealVal(1), powr(v, z3.IntVal(-kv)))
        return uf('powi', v, k)
    if n == 'powf': return powr(v, arg(0))
    if n == 'max': return maxr(v, arg(0))
    if n == 'min': return minr(v, arg(0))
    if n == 'clamp': return minr(maxr(v, arg(0)), arg(1))
    if n == 'is_nan': return z3.BoolVal(False)
    if n == 'is_infinite': return eq(absr(v), INF(ip)) if False else z3.BoolVal(False)
    if n == 'is_finite': return z3.BoolVal(True)
    if n in ('is_sign_negative',): return lt(v, z3.RealVal(0))
    if n in ('is_sign_positive',): return ge(v, z3.RealVal(0))
    if n == 'partial_cmp': return SOME(cmp_(v, arg(0)))
    if n in ('cmp', 'total_cmp'): return cmp_(v, arg(0))
    if n == 'unwrap': return v
    if n == 'then':
        c = arg(0)
        if ip.branch(v): return SOME(ip.call_value(c, []))
        return NONE()
    if n == 'then_some':
        return SymEn([(v, SOME(arg(0))), (bnot(v), NONE())])
    if n in ('saturating_sub',): return maxr(sub(v, arg(0)), z3.IntVal(0))
    if n in ('wrapping_add', 'saturating_add'): return add(v, arg(0))
    if n == 'is_multiple_of': return eq(mod(v, arg(0)), 0)
    if n == 'abs_diff': return absr(sub(v, arg(0)))
    if n == 'mul_add': return add(mul(v, arg(0)), arg(1))
    if n == 'to_usize': return SOME(as_usize(v))
    if n == 'to_bits' or n == 'to_ne_bytes': raise Unsupported("bits")
    if n == 'partial_min': return minr(v, arg(0))
    if n == 'eq': return eq(v, arg(0))
    if n == 'lt': return lt(v, arg(0))
    if n == 'div_ceil': return div(sub(add(v, arg(0)), 1), arg(0))
    if n == 'rem_euclid': return mod(v, arg(0))
    return NotImplemented

def ipow(v, k):
    r = z3.IntVal(1)
    for _ in range(k): r = mul(r, v)
    return r

def cmp_(a, b):
    return SymEn([(lt(a, b), En('Less')), (gt(a, b), En('Greater')), (band(bnot(lt(a, b)), bnot(gt(a, b))), En('Equal'))])

def cases(v): return v.cases if isinstance(v, SymEn) else [(z3.BoolVal(True), v)]

def resolve(ip, v):
    """pick the case by branching"""
    if isinstance(v, SymEn):
        for i, (g, c) in enumerate(v.cases):
            if i == len(v.cases) - 1:
                ip.pc.append(g); return c
            if ip.branch(g): return c
    return v

def m_enum(ip, recv, v, n, arg, rarg, A, e, env):
    good = ('Some', 'Ok')
    line = e.get('line', 0)
    if n in ('is_some', 'is_ok'): return bor(*[g for g, c in cases(v) if c.var in good])
    if n in ('is_none', 'is_err'): return bor(*[g for g, c in cases(v) if c.var not in good])
    if n in ('unwrap', 'expect'):
        ok = bor(*[g for g, c in cases(v) if c.var in good])
        if z3.is_false(lift(ok)): raise PanicEx(f"{n} on {v}", line)
        ip.oblige(f"{n} succeeds", ok, line)
        if ip.quiet: ip.pc.append(lift(ok)) if not z3.is_true(lift(ok)) else None
        r = None
        for g, c in cases(v):
            if c.var in good: r = c.ps[0] if r is None else merge2(g, c.ps[0], r)
        if isinstance(recv, Place) and isinstance(v, En) and n == 'unwrap' and isinstance(v.ps[0], Place): return v.ps[0]
        return r
    if n == 'unwrap_or':
        v = resolve(ip, v)
        return v.ps[0] if v.var in good else rarg(0)
    if n == 'unwrap_or_else':
        v = resolve(ip, v)
        return v.ps[0] if v.var in good else ip.call_value(arg(0), [] if v.var == 'None' else [v.ps[0]])
    if n == 'unwrap_or_default':
        v = resolve(ip, v)
        if v.var in good: return v.ps[0]
        raise Unsupported("default")
    if n in ('as_ref', 'as_deref', 'copied', 'cloned', 'clone', 'to_owned', 'iter', 'into', 'as_mut'):
        if n == 'iter': return ip.to_iter(resolve(ip, v))
        return v
    if n == 'ok':
        return SymEn([(g, SOME(c.ps[0]) if c.var in good else NONE()) for g, c in cases(v)]) if isinstance(v, SymEn) else (SOME(v.ps[0]) if v.var in good else NONE())
    if n in ('map', 'and_then', 'map_err', 'map_or', 'map_or_else', 'ok_or', 'ok_or_else', 'or', 'or_else', 'is_some_and', 'filter', 'take', 'replace', 'get_or_insert_with', 'is_none_or', 'zip', 'flatten', 'unwrap_err', 'err', 'is_ok_and', 'insert'):
        v = resolve(ip, v)
        isg = v.var in good
        if n == 'map': return En(v.var, [ip.call_value(arg(0), [v.ps[0]])]) if isg else v
        if n == 'and_then': return ip.call_value(arg(0), [v.ps[0]]) if isg else v
        if n == 'map_err': return v if isg else En('Err', [ip.call_value(arg(0), [v.ps[0]])])
        if n == 'map_or': return ip.call_value(arg(1), [v.ps[0]]) if isg else arg(0)
        if n == 'map_or_else': return ip.call_value(arg(1), [v.ps[0]]) if isg else ip.call_value(arg(0), [])
        if n == 'ok_or': return OK(v.ps[0]) if isg else ERR(arg(0))
        if n == 'ok_or_else': return OK(v.ps[0]) if isg else ERR(ip.call_value(arg(0), []))
        if n == 'or': return v if isg else arg(0)
        if n == 'or_else': return v if isg else ip.call_value(arg(0), [])
        if n in ('is_some_and', 'is_ok_and'): return ip.call_value(arg(0), [v.ps[0]]) if isg else z3.BoolVal(False)
        if n == 'is_none_or': return ip.call_value(arg(0), [v.ps[0]]) if isg else z3.BoolVal(True)
        if n == 'filter':
            if not isg: return v
            return v if ip.branch(lift(deref(ip.call_value(arg(0), [v.ps[0]])))) else NONE()
        if n == 'take':
            recv.set(NONE()); return v
        if n in ('replace', 'insert'):
            recv.set(SOME(arg(0))); return v
        if n == 'flatten': return v.ps[0] if isg else v
        if n == 'err': return NONE() if isg else SOME(v.ps[0])
    if n in ('reverse',):
        m = {'Less': 'Greater', 'Greater': 'Less', 'Equal': 'Equal'}
        return SymEn([(g, En(m[c.var])) for g, c in cases(v)])
    if n == 'then_with':
        v = resolve(ip, v)
        return v if v.var != 'Equal' else ip.call_value(arg(0), [])
    if n in ('is_lt', 'is_gt', 'is_eq', 'is_le', 'is_ge', 'is_ne'):
        s = {'is_lt': ('Less',), 'is_gt': ('Greater',), 'is_eq': ('Equal',), 'is_le': ('Less', 'Equal'), 'is_ge': ('Greater', 'Equal'), 'is_ne': ('Less', 'Greater')}[n]
        return bor(*[g for g, c in cases(v) if c.var in s])
    if n == 'into_iter': return ip.to_iter(resolve(ip, v))
    return NotImplemented

# ---------------------------------------------------------------- iterators
def order_pred(ip, f, a, b):
    """symbolic 'a not greater than b' from a comparator closure"""
    r = deref(ip.call_value(f, [a, b]))
    return bor(*[g for g, c in cases(r) if c.var in ('Less', 'Equal')])

def guard_sel(ip, it):
    return ip.select(it) if it.pred is not None else it

def m_iter(ip, it, n, arg, rarg, A, e, env):
    line = e.get('line', 0)
    if n in ('iter', 'into_iter', 'iter_mut', 'into_par_iter', 'par_iter', 'par_iter_mut', 'into_iterator', 'by_ref', 'fuse', 'peekable', 'axis_iter_', 'copied', 'cloned', 'into_producer'): return it
    if n in ('rows', 'genrows', 'outer_iter') and isinstance(it, It): return it
    if n == 'map':
        f = arg(0)
        return It(it.n, lambda i: ip.call_value(f, [it.fn(i)], line), it.pred)
    if n == 'inspect': return it
    if n == 'enumerate':
        if it.pred is not None: it = ip.select(it)
        return It(it.n, lambda i: Tup([i, it.fn(i)]))
    if n == 'zip':
        jt = ip.to_iter(rarg(0)); it = guard_sel(ip, it); jt = guard_sel(ip, jt)
        if isinf(jt.n): m = it.n
        elif isinf(it.n): m = jt.n
        elif it.n.eq(jt.n) or isnum(z3.simplify(it.n - jt.n), 0) or ip.entails(eq(it.n, jt.n)): m = it.n
        else: m = minr(it.n, jt.n)
        return It(m, lambda i: Tup([it.fn(i), jt.fn(i)]))
    if n == 'chain':
        jt = guard_sel(ip, ip.to_iter(rarg(0))); it = guard_sel(ip, it)
        return It(add(it.n, jt.n), lambda i: pick2(ip, lt(i, it.n), lambda: it.fn(i), lambda: jt.fn(sub(i, it.n))))
    if n == 'rev':
        it = guard_sel(ip, it)
        return It(it.n, lambda i: it.fn(sub(sub(it.n, 1), i)))
    if n == 'take':
        it = guard_sel(ip, it); k = arg(0)
        return It(k if isinf(it.n) or ip.entails(le(k, it.n)) else minr(it.n, k), it.fn)
    if n == 'skip':
        it = guard_sel(ip, it); k = arg(0)
        m = sub(it.n, k)
        return It(m if ip.entails(ge(m, 0)) else maxr(m, z3.IntVal(0)), lambda i: it.fn(add(i, k)))
    if n == 'step_by':
        k = arg(0)
        return It(div(sub(add(it.n, k), 1), k), lambda i: it.fn(mul(i, k)))
    if n == 'filter':
        f = arg(0)
        p0 = it.pred
        def pr(i):
            c = lift(deref(ip.call_value(f, [it.fn(i)], line)))
            return c if p0 is None else band(p0(i), c)
        return It(it.n, it.fn, pr)
    if n == 'filter_map':
        f = arg(0); p0 = it.pred
        arr = ip.lazy(lambda i: ip.call_value(f, [it.fn(i)], line), [it.n])
        def pr(i):
            o = arr.at(i); c = bor(*[g for g, x in cases(o) if x.var == 'Some'])
            return c if p0 is None else band(p0(i), c)
        def val(i):
            o = arr.at(i); r = None
            for g, x in cases(o):
                if x.var == 'Some': r = x.ps[0] if r is None else merge2(g, x.ps[0], r)
            return r
        return It(it.n, val, pr)
    if n == 'flatten' or n == 'flat_map':
        return flat(ip, it, arg(0) if n == 'flat_map' else None, e)
    if n in ('for_each', 'par_for_each'):
        f = arg(0)
        ip.loop_over(it, lambda x: ip.call_value(f, [x], line), e); return UNIT
    if n == 'try_for_each': raise Unsupported("try_for_each")
    if n in ('collect', 'collect_vec'):
        kind = 'vec'
        g = (e.get('gen') or [''])[0].replace(' ', '') + getattr(ip, 'tyhint', '')
        if 'Array' in g: kind = 'nd'
        if 'Result' in g or 'Option' in g: return collect_res(ip, it, kind)
        return ip.collect(it, kind)
    if n in ('sum', 'product'):
        if isinstance(it, It2): return arr_sum(ip, it.arr, 'sum' if n == 'sum' else 'prod')
        a = elems(ip, it)
        pr = None if it.pred is None else elems(ip, It(it.n, it.pred))
        z = z3.RealVal(0 if n == 'sum' else 1)
        kind = 'sum' if n == 'sum' else 'prod'
        if pr is not None: return mkred(kind, it.n, lambda i: zite(pr.at(i), deref(a.at(i)), 0 if n == 'sum' else 1))
        probe = deref(a.at(z3.IntVal(0))) if isnum(it.n) and numval(it.n) > 0 else (deref(a.at(fresh('ix', IS))) if not isnum(it.n) else z)
        k2 = kind if lift(probe).sort() == RS else ('isum' if n == 'sum' else 'iprod')
        if k2 == 'iprod':
            if isnum(it.n):
                r = z3.IntVal(1)
                for i in range(int(numval(it.n))): r = mul(r, a.at(z3.IntVal(i)))
                return r
            raise Unsupported("integer product")
        return mkred(k2, it.n, lambda i: deref(a.at(i)))
    if n == 'count':
        if it.pred is None: return it.n
        pr = elems(ip, It(it.n, it.pred))
        return mkred('isum', it.n, lambda i: ite(pr.at(i), 1, 0))
    if n in ('len',): return it.n
    if n == 'fold' :
        return fold(ip, it, ip.ev(A[0], env), arg(1), e)
    if n in ('any', 'all', 'position', 'find', 'find_map'):
        f = arg(0)
        pr = elems(ip, It(it.n, lambda i: lift(deref(ip.call_value(f, [it.fn(i)], line)))))
        gp = None if it.pred is None else elems(ip, It(it.n, it.pred))
        P = (lambda i: pr.at(i)) if gp is None else (lambda i: band(gp.at(i), pr.at(i)))
        if n == 'any': return quant(ip, it.n, P, True)
        if n == 'all':
            Q = (lambda i: pr.at(i)) if gp is None else (lambda i: implies(gp.at(i), pr.at(i)))
            return quant(ip, it.n, Q, False)
        if n in ('position', 'find'):
            if n == 'position' and gp is not None: raise Unsupported("position after filter")
            has = quant(ip, it.n, P, True)
            if ip.branch(has):
                k, ow = ip.sk('first', IS, e)
                ip.fact(ow, 'a', band(ge(k, 0), lt(k, it.n), P(k)))
                ip.fact(ow, 'b', lambda i: implies(band(ge(i, 0), lt(i, k)), bnot(P(i))))
                return SOME(k if n == 'position' else it.fn(k))
            return NONE()
    if n in ('max', 'min', 'max_by', 'min_by', 'min_by_key', 'max_by_key'):
        it = guard_sel(ip, it)
        if not ip.branch(gt(it.n, 0)): return NONE()
        k, ow = ip.sk('best', IS, e)
        if n in ('min', 'max'):
            lef = lambda a, b: le(deref(a), deref(b))
        elif n.endswith('_key'):
            f = arg(0); lef = lambda a, b: le(deref(ip.call_value(f, [a])), deref(ip.call_value(f, [b])))
        else:
            f = arg(0); lef = lambda a, b: order_pred(ip, f, a, b)
        def better(i): # element k is at least as good as i
            return qv(ip, lambda: lef(it.fn(k), it.fn(i)) if n.startswith('min') else lef(it.fn(i), it.fn(k)))
        ip.fact(ow, 'a', band(ge(k, 0), lt(k, it.n)))
        ip.fact(ow, 'b', lambda i: implies(band(ge(i, 0), lt(i, it.n)), better(i)))
        return SOME(it.fn(k))
    if n in ('next', 'first', 'last', 'nth'):
        it = guard_sel(ip, it)
        if n == 'next' or n == 'first': k = z3.IntVal(0)
        elif n == 'last': k = sub(it.n, 1)
        else: k = arg(0)
        if isnum(it.n):
            if numval(it.n) > 0: return SOME(it.fn(k))
            return NONE()
        if ip.branch(band(ge(k, 0), lt(k, it.n))): return SOME(it.fn(k))
        return NONE()
    if n == 'unzip':
        a = ip.collect(it)
        return Tup([Arr(a.dims, lambda *i: deref(a.at(*i)).es[0], 'vec'), Arr(a.dims, lambda *i: deref(a.at(*i)).es[1], 'vec')])
    if n == 'reduce' :
        fs = A
        f = arg(len(A) - 1)
        it = guard_sel(ip, it)
        if len(A) == 2: return fold(ip, it, ip.call_value(arg(0), []), f, e)
        if not ip.branch(gt(it.n, 0)): return NONE()
        a, b = fresh('acc', IS), fresh('acc', IS)
        try: r = qv(ip, lambda: ip.call_value(f, [a, b]))
        except Exception: r = None
        if r is not None and is_scalar(r) and canon(lift(r)).eq(canon(add(a, b))):
            k = fresh('ix', IS); pr = lift(qv(ip, lambda: it.fn(k)))
            if pr.sort() == IS: return SOME(mkred('isum', it.n, lambda i: lift(deref(qv(ip, lambda: it.fn(i))))))
        return SOME(fold(ip, It(sub(it.n, 1), lambda i: it.fn(add(i, 1))), it.fn(z3.IntVal(0)), f, e))
    if n == 'and': pass
    if n == 'into_dimensionality': return it
    if n == 'is_empty': return eq(it.n, 0)
    if n in ('start', 'end'): return None
    if n == 'contains':
        x = arg(0); it_ = it
        return quant(ip, it.n, lambda i: eq(deref(it_.fn(i)), x), True)
    if n == 'windows': raise Unsupported("windows")
    if n == 'for_each_with': raise Unsupported(n)
    # matrix producers
    if n == 'nrows': return it.n
    return NotImplemented

def isinf(n): return z3.is_const(n) and not isnum(n) and n.decl().name() == 'inf!'

def pick2(ip, c, f, g):
    c = z3.simplify(c)
    if z3.is_true(c): return f()
    if z3.is_false(c): return g()
    return merge2(c, f(), g())

def zite(c, v, z):
    v = lift(v)
    return ite(c, v, mknum(Fraction(z), v.sort()))

def qv(ip, thunk):
    """evaluate a boolean thunk over all paths, quietly"""
    q, l = ip.quiet, ip.lz
    s, p = ip.store, ip.pc
    ip.quiet += 1
    ip.store = dict(s); ip.pc = list(p)
    try:
        _, v = ip.merged(thunk)
        return lift(deref(v))
    finally: ip.quiet = q; ip.store, ip.pc = s, p

def quant(ip, n, P, ex):
    """exists / forall over [0,n) as a boolean reduction, with witness facts"""
    n = lift(n)
    t = mkred('or' if ex else 'and', n, P)
    if isnum(t) or z3.is_true(t) or z3.is_false(t): return t
    return t

def elems(ip, it):
    n = it.n
    if isnum(n) and numval(n) <= 16:
        vals = [ip.freeze(it.fn(z3.IntVal(i))) for i in range(int(numval(n)))]
        return from_list(vals, 'vec') if vals else Arr([z3.IntVal(0)], lambda i: z3.RealVal(0), 'vec')
    return ip.lazy(lambda i: it.fn(i), [n], 'vec')

def collect_res(ip, it, kind):
    a = elems(ip, it) if it.pred is None else elems(ip, ip.select(it))
    probe = deref(a.at(fresh('ix', IS))) if not isnum(a.dims[0]) else None
    good = ('Ok', 'Some')
    def ok(i): return bor(*[g for g, c in cases(deref(a.at(i))) if c.var in good])
    def val(i):
        r = None
        for g, c in cases(deref(a.at(i))):
            if c.var in good: r = c.ps[0] if r is None else merge2(g, c.ps[0], r)
        return r
    all_ok = quant(ip, a.dims[0], ok, False)
    if ip.branch(all_ok):
        return OK(Arr(a.dims, val, kind))
    return ERR(Opq('error'))

def fold(ip, it, init, f, node):
    cell = ip.newcell(deref(init))
    def run(x): ip.store[cell] = deref(ip.call_value(f, [ip.store[cell], x]))
    ip.loop_over(it, run, node)
    return ip.store[cell]

def flat(ip, it, f, e):
    it = guard_sel(ip, it)
    g = (lambda i: ip.call_value(f, [it.fn(i)])) if f is not None else it.fn
    def sub_it(i):
        v = g(i)
        return guard_sel(ip, ip.to_iter(v))
    if isnum(it.n) and numval(it.n) <= 8:
        its = [sub_it(z3.IntVal(i)) for i in range(int(numval(it.n)))]
        cur = its[0]
        for nx in its[1:]:
            cur = It(add(cur.n, nx.n), (lambda c, x: lambda i: pick2(ip, lt(i, c.n), lambda: c.fn(i), lambda: x.fn(sub(i, c.n))))(cur, nx))
        return cur
    # general: segments
    arrs = ip.lazy(lambda i: sub_it_arr(ip, g(i)), [it.n])
    cnt = lambda i: arrs.at(i).dims[0]
    # uniform count?
    i0 = fresh('ix', IS)
    c = cnt(i0)
    if not depends(c, i0):
        return It(mul(it.n, c), lambda p: deref(arrs.at(div(p, c)).at(mod(p, c))))
    off = lambda m: mkred('isum', m, cnt)
    seg, ow = ip.skfun('seg', [IS], IS, e)
    n = it.n
    from .loops import Univ2
    ip.fact(ow, 'seg', lambda p: implies(band(ge(p, 0), lt(p, off(n))), band(ge(seg(p), 0), lt(seg(p), n), le(off(seg(p)), p), lt(p, add(off(seg(p)), cnt(seg(p)))), le(add(off(seg(p)), cnt(seg(p))), off(n)))))
    ip.univ.append(Univ2(lambda i, p: implies(band(ge(i, 0), lt(i, n), ge(p, off(i)), lt(p, add(off(i), cnt(i)))), eq(seg(p), i)), ow[0].name()))
    return It(off(n), lambda p: deref(arrs.at(seg(p)).at(sub(p, off(seg(p))))))

def sub_it_arr(ip, v):
    it = ip.to_iter(v)
    return ip.collect(it)

# ---------------------------------------------------------------- ndarray Zip
def producer(ip, v):
    """(dims, fn(*idx))"""
    vd = deref(v)
    if isinstance(vd, It2): return [vd.arr.dims[0], vd.arr.dims[1]], lambda i, j: vd.arr.at(i, j)
    if isinstance(vd, It):
        it = guard_sel(ip, vd)
        return [it.n], lambda i: it.fn(i)
    if isinstance(vd, Arr):
        if isinstance(v, Place): return list(vd.dims), lambda *i: elem_place(v, list(i))
        return list(vd.dims), lambda *i: vd.at(*i)
    if isinstance(vd, Range):
        it = ip.to_iter(vd); return [it.n], it.fn
    raise Unsupported(f"zip producer {type(vd).__name__}")

def m_zip(ip, z, n, arg, rarg, A, e, env):
    line = e.get('line', 0)
    if n in ('and', 'and_broadcast'):
        dims, fn = producer(ip, rarg(0))
        if n == 'and_broadcast' and len(dims) < len(z.dims):
            k = len(z.dims) - len(dims); f0 = fn
            fn = lambda *i: f0(*i[k:]); dims = z.dims
        if n == 'and' and z.dims is not None:
            if len(dims) != len(z.dims): raise Unsupported("zip rank")
            c = band(*[eq(a, b) for a, b in zip(dims, z.dims)])
            ip.oblige('zip shapes agree', c, line)
        return Zp(z.prods + [fn], z.indexed, z.dims if z.dims is not None else dims)
    if n in ('for_each', 'par_for_each'):
        f = arg(0); zloop(ip, z, lambda xs: ip.call_value(f, xs, line), e); return UNIT
    if n in ('map_collect', 'par_map_collect'):
        f = arg(0)
        return ip.lazy(lambda *i: ip.call_value(f, zargs(z, i), line), z.dims, 'nd')
    if n in ('fold', 'fold_while'):
        f = arg(1); cell = ip.newcell(deref(ip.ev(A[0], env)))
        if n == 'fold_while': raise Unsupported("fold_while")
        zloop(ip, z, lambda xs: ip.store.__setitem__(cell, deref(ip.call_value(f, [ip.store[cell]] + xs, line))), e)
        return ip.store[cell]
    if n in ('all', 'any'):
        f = arg(0)
        a = ip.lazy(lambda *i: ip.call_value(f, zargs(z, i), line), z.dims)
        def go(*ix):
            if len(ix) == len(z.dims): return lift(deref(a.at(*ix)))
            return mkred('and' if n == 'all' else 'or', z.dims[len(ix)], lambda i: go(*ix, i))
        return go()
    if n == 'map_assign_into' or n == 'par_map_assign_into':
        into = rarg(0); f = arg(1)
        dims, fn = producer(ip, into)
        z2 = Zp(z.prods + [fn], z.indexed, z.dims)
        def run(xs): xs[-1].set(deref(ip.call_value(f, xs[:-1], line)))
        zloop(ip, z2, run, e); return UNIT
    return NotImplemented

def zargs(z, idx):
    xs = [p(*idx) for p in z.prods]
    if z.indexed:
        xs = [(lift(idx[0]) if len(idx) == 1 else Tup([lift(i) for i in idx]))] + xs
    return xs

def zloop(ip, z, run, node):
    from .loops import summarise
    def rec(idx):
        if len(idx) == len(z.dims): run(zargs(z, idx)); return
        summarise(ip, z.dims[len(idx)], lambda i: rec(idx + [i]), (id(node), len(idx)) and node)
    rec([])

# ---------------------------------------------------------------- arrays
def arr_sum(ip, a, kind='sum'):
    def go(*ix):
        if len(ix) == a.rank: return deref(a.at(*ix))
        return mkred(kind, a.dims[len(ix)], lambda i: go(*ix, i))
    probe = a.dims and lift(deref(a.at(*[fresh('ix', IS) for _ in a.dims]))) if not all(isnum(d) for d in a.dims) else None
    if probe is not None and probe.sort() == IS and kind == 'sum': kind = 'isum'
    if a.rank == 0: return deref(a.at())
    return go()

def dot(ip, a, b, line):
    if a.rank == 1 and b.rank == 1:
        ip.oblige('dot shapes', eq(a.dims[0], b.dims[0]), line)
        return mkred('sum', a.dims[0], lambda k: mul(deref(a.at(k)), deref(b.at(k))))
    if a.rank == 2 and b.rank == 2:
        ip.oblige('dot shapes', eq(a.dims[1], b.dims[0]), line)
        return Arr([a.dims[0], b.dims[1]], lambda i, j: mkred('sum', a.dims[1], lambda k: mul(deref(a.at(i, k)), deref(b.at(k, j)))))
    if a.rank == 2 and b.rank == 1:
        ip.oblige('dot shapes', eq(a.dims[1], b.dims[0]), line)
        return Arr([a.dims[0]], lambda i: mkred('sum', a.dims[1], lambda k: mul(deref(a.at(i, k)), deref(b.at(k)))))
    if a.rank == 1 and b.rank == 2:
        ip.oblige('dot shapes', eq(a.dims[0], b.dims[0]), line)
        return Arr([b.dims[1]], lambda j: mkred('sum', a.dims[0], lambda k: mul(deref(a.at(k)), deref(b.at(k, j)))))
    raise Unsupported("dot rank")

def remove_axis_idx(idx, axis, x):
    l = list(idx); l.insert(axis, x); return l

def inv_tri(ip, A, uplo):
    """uninterpreted inverse of a triangular matrix, keyed by its entries"""
    if uplo == 'Upper':
        f = inv_tri(ip, Arr([A.dims[1], A.dims[0]], lambda i, j: A.at(j, i)), 'Lower')
        return lambda i, j: f(j, i)
    i0, j0 = z3.Int('cv!0'), z3.Int('cv!1')
    t = canon(lift(deref(A.at(i0, j0))))
    h = hashlib.md5((tensor.text(t) + '|' + z3.simplify(A.dims[0]).sexpr()).encode()).hexdigest()[:10]
    free = [c for c in free_consts(t) if c.sort() == IS and c.decl().name().startswith(('ix!', 'bvx!', 'bv!', 'sk!')) and not c.eq(i0) and not c.eq(j0)]
    if free: raise Unsupported("inverse of an index-dependent matrix")
    f = z3.Function('trinv_' + h, IS, IS, RS)
    TRINV[f.name()] = (A, uplo)
    return lambda i, j: f(lift(i), lift(j))
TRINV = {}

def free_consts(t):
    out = {}; seen = set(); st = [t]
    while st:
        u = st.pop(); i = u.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_app(u):
            if u.num_args() == 0 and u.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                nm = u.decl().name()
                if nm in REDS: st += [REDS[nm].body, REDS[nm].n]
                else: out[nm] = u
            st.extend(u.children())
    return list(out.values())

def permutation(ip, n, node, name='perm'):
    p, ow = ip.skfun(name, [IS], IS, node)
    q, ow2 = ip.skfun(name + 'inv', [IS], IS, node)
    ip.fact(ow, 'p', lambda i: implies(band(ge(i, 0), lt(i, n)), band(ge(p(i), 0), lt(p(i), n), eq(q(p(i)), i))))
    ip.fact(ow2, 'q', lambda i: implies(band(ge(i, 0), lt(i, n)), band(ge(q(i), 0), lt(q(i), n), eq(p(q(i)), i))))
    if ow and ow[1]: 
        # also instantiate the inverse facts on applications of the direct function
        ip.fact(ow, 'q', lambda i: implies(band(ge(i, 0), lt(i, n)), band(ge(q(i), 0), lt(q(i), n), eq(p(q(i)), i))))
    return p, q

def m_arr(ip, recv, v, n, arg, rarg, A, e, env, line):
    d = v.dims
    at = lambda *i: deref(v.at(*i))
    if n in ('nrows', 'height'): return d[0]
    if n in ('ncols', 'width'): return d[1]
    if n == 'len':
        r = d[0]
        for x in d[1:]: r = mul(r, x)
        return r
    if n == 'is_empty':
        return bor(*[eq(x, 0) for x in d])
    if n in ('dim', 'raw_dim'): return d[0] if len(d) == 1 else Tup(list(d))
    if n == 'shape': return from_list(list(d), 'vec')
    if n == 'ndim': return z3.IntVal(len(d))
    if n == 'len_of': return d[axis_of(arg(0))]
    if n in ('iter', 'into_iter', 'into_par_iter', 'par_iter'):
        if v.rank == 1: return It(d[0], lambda i: v.at(i))
        if n == 'into_iter' and v.kind != 'nd': return It(d[0], lambda i: v.at(i))
        if n == 'iter' and v.rank == 2: return ip.to_iter(v)
        return ip.to_iter(v)
    if n in ('iter_mut', 'par_iter_mut'):
        if v.rank == 1: return It(d[0], lambda i: elem_place(recv, [i]))
        raise Unsupported("iter_mut rank")
    if n in ('rows', 'genrows', 'outer_iter', 'axis_iter', 'lanes'):
        ax = 0
        if n == 'axis_iter': ax = axis_of(arg(0))
        if n == 'lanes':
            a = axis_of(arg(0))
            if v.rank != 2: raise Unsupported("lanes")
            ax = 1 - a
        if n in ('rows', 'genrows') and v.rank == 1: return It(z3.IntVal(1), lambda i: v)
        if v.rank == 1: return It(d[0], lambda i: v.at(i))
        return It(d[ax], lambda i: view_of(v, [('fix', lift(i)) if k == ax else ('rng', z3.IntVal(0), x, False) for k, x in enumerate(d)]))
    if n in ('columns', 'gencolumns'):
        return It(d[1], lambda i: view_of(v, [('rng', z3.IntVal(0), d[0], False), ('fix', lift(i))]))
    if n in ('rows_mut', 'outer_iter_mut', 'axis_iter_mut', 'columns_mut', 'genrows_mut'):
        ax = 1 if n == 'columns_mut' else 0
        if n == 'axis_iter_mut': ax = axis_of(arg(0))
        return It(d[ax], lambda i: axis_place(recv, v, ax, i))
    if n in ('row', 'column', 'index_axis', 'row_mut', 'column_mut', 'index_axis_mut', 'index_axis_move'):
        ax = 0 if n.startswith('row') else 1 if n.startswith('column') else axis_of(arg(0))
        i = arg(len(A) - 1)
        ip.oblige(f"{n} index in bounds", band(ge(i, 0), lt(i, d[ax])), line)
        axes = [('fix', lift(i)) if k == ax else ('rng', z3.IntVal(0), x, False) for k, x in enumerate(d)]
        if n.endswith('_mut'): return ViewPlace(recv, axes)
        return view_of(v, axes)
    if n in ('slice', 'slice_mut', 'slice_move'):
        axes, new = slice_axes(ip, v, A[0], env, line)
        if n == 'slice_mut': return ViewPlace(recv, axes) if not new else None
        r = view_of(v, axes)
        return r
    if n == 'select':
        ax = axis_of(arg(0)); ids = arg(1)
        if isinstance(ids, It): ids = ip.collect(ids)
        m = ids.dims[0]
        if not ip.quiet and not (isnum(m) and numval(m) == 0):
            k = fresh('ix', IS)
            pc = ip.pc; ip.pc = pc + [ge(k, 0), lt(k, m)]
            ip.oblige('select index in bounds', band(ge(deref(ids.at(k)), 0), lt(deref(ids.at(k)), d[ax])), line)
            ip.pc = pc
        dims = [m if k == ax else x for k, x in enumerate(d)]
        return Arr(dims, lambda *i: v.at(*[deref(ids.at(x)) if k == ax else x for k, x in enumerate(i)]), 'nd')
    if n in ('t', 'reversed_axes'): return Arr(d[::-1], lambda *i: v.at(*i[::-1]), 'nd') if v.rank == 2 else v
    if n == 'permuted_axes': raise Unsupported(n)
    if n in ('insert_axis',):
        ax = axis_of(arg(0))
        dims = list(d); dims.insert(ax, z3.IntVal(1))
        return Arr(dims, lambda *i: v.at(*[x for k, x in enumerate(i) if k != ax]), 'nd')
    if n == 'remove_axis':
        ax = axis_of(arg(0))
        dims = [x for k, x in enumerate(d) if k != ax]
        return Arr(dims, lambda *i: v.at(*remove_axis_idx(i, ax, z3.IntVal(0))), 'nd')
    if n == 'dot': return dot(ip, v, arg(0), line)
    if n in ('mapv', 'map', 'mapv_into', 'mapv_into_any') and v.kind == 'nd' or (n == 'map' and v.kind == 'vec'):
        f = arg(0)
        return ip.lazy(lambda *i: ip.call_value(f, [v.at(*i)], line), d, v.kind)
    if n in ('mapv_inplace', 'map_inplace', 'par_mapv_inplace'):
        f = arg(0)
        if n == 'map_inplace':
            z = Zp([producer(ip, recv)[1]], False, list(d))
            zloop(ip, z, lambda xs: ip.call_value(f, xs, line), e); return UNIT
        recv.set(ip.lazy(lambda *i: ip.call_value(f, [v.at(*i)], line), d, v.kind)); return UNIT
    if n == 'zip_mut_with':
        b = arg(0); f = arg(1)
        z = Zp([producer(ip, recv)[1], lambda *i: b.at(*i)], False, list(d))
        zloop(ip, z, lambda xs: ip.call_value(f, xs, line), e); return UNIT
    if n == 'map_axis' or n == 'map_axis_mut':
        ax = axis_of(arg(0)); f = arg(1)
        dims = [x for k, x in enumerate(d) if k != ax]
        def lane(*i): return Arr([d[ax]], lambda j: v.at(*remove_axis_idx(i, ax, j)), 'nd')
        return ip.lazy(lambda *i: ip.call_value(f, [lane(*i)], line), dims, 'nd')
    if n == 'sum': return arr_sum(ip, v)
    if n == 'product': return arr_sum(ip, v, 'prod')
    if n in ('sum_axis', 'mean_axis', 'product_axis', 'std_axis', 'var_axis'):
        ax = axis_of(arg(0))
        dims = [x for k, x in enumerate(d) if k != ax]
        sm = lambda g: (lambda *i: mkred('sum', d[ax], lambda j: g(*remove_axis_idx(i, ax, j))))
        if n == 'sum_axis': return Arr(dims, sm(at))
        if n == 'product_axis': return Arr(dims, lambda *i: mkred('prod', d[ax], lambda j: at(*remove_axis_idx(i, ax, j))))
        mean = lambda *i: div(sm(at)(*i), toreal(d[ax]))
        if n == 'mean_axis':
            r = Arr(dims, mean)
            if ip.entails(gt(d[ax], 0)): return SOME(r)
            return SymEn([(gt(d[ax], 0), SOME(r)), (le(d[ax], 0), NONE())])
        ddof = toreal(arg(1))
        def var(*i):
            m = mean(*i)
            return div(mkred('sum', d[ax], lambda j: mul(sub(at(*remove_axis_idx(i, ax, j)), m), sub(at(*remove_axis_idx(i, ax, j)), m))), sub(toreal(d[ax]), ddof))
        return Arr(dims, var) if n == 'var_axis' else Arr(dims, lambda *i: sqrt(var(*i)))
    if n in ('mean',):
        m = d[0]
        for x in d[1:]: m = mul(m, x)
        r = div(arr_sum(ip, v), toreal(m))
        if ip.entails(gt(m, 0)): return SOME(r)
        return SymEn([(gt(m, 0), SOME(r)), (le(m, 0), NONE())])
    if n in ('std', 'var'):
        m = d[0]
        for x in d[1:]: m = mul(m, x)
        mu = div(arr_sum(ip, v), toreal(m)); ddof = toreal(arg(0))
        w = div(arr_sum(ip, Arr(d, lambda *i: mul(sub(at(*i), mu), sub(at(*i), mu)))), sub(toreal(m), ddof))
        return w if n == 'var' else sqrt(w)
    if n in ('norm_l1', 'norm_l2', 'norm_max'):
        if n == 'norm_l1': return arr_sum(ip, Arr(d, lambda *i: absr(at(*i))))
        if n == 'norm_l2': return sqrt(arr_sum(ip, Arr(d, lambda *i: mul(at(*i), at(*i)))))
        return mkred('max', d[0], lambda i: absr(at(i)))
    if n in ('l2_dist', 'l1_dist', 'sq_l2_dist'):
        b = arg(0)
        ip.oblige('distance shapes', eq(d[0], b.dims[0]), line)
        df = lambda *i: sub(at(*i), deref(b.at(*i)))
        if n == 'l1_dist': return OK(arr_sum(ip, Arr(d, lambda *i: absr(df(*i)))))
        s = arr_sum(ip, Arr(d, lambda *i: mul(df(*i), df(*i))))
        return OK(s if n[0] == 's' else sqrt(s))
    if n in SCAL1 and v.kind == 'nd': return Arr(d, lambda *i: SCAL1[n](at(*i)))
    if n in ('powi', 'powf'):
        k = arg(0); 
        return Arr(d, lambda *i: powr(at(*i), k))
    if n in ('max', 'min', 'argmax', 'argmin', 'max_skipnan', 'min_skipnan', 'argmin_skipnan', 'argmax_skipnan'):
        # ndarray-stats: NaN-free semantics
        if v.rank == 0: return OK(at())
        ne_ = band(*[gt(x, 0) for x in d])
        ks = []; ow = None
        for j in range(v.rank):
            k, ow = ip.sk(n[:6], IS, (e, j) and e)
            ks.append(k)
            ip.fact(ow, 'a', implies(ne_, band(ge(k, 0), lt(k, d[j]))))
        best = at(*ks)
        cmpf = (lambda x: le(x, best)) if 'max' in n else (lambda x: le(best, x))
        if v.rank == 1:
            ip.fact(ow, 'b', lambda i: implies(band(ge(i, 0), lt(i, d[0])), cmpf(at(i))))
        else:
            from .loops import Univ2
            if ip.lz: raise Unsupported("nested 2d extremum")
            ip.univ.append(Univ2(lambda i, j: implies(band(ge(i, 0), lt(i, d[0]), ge(j, 0), lt(j, d[1])), cmpf(at(i, j)))))
        res = best if n in ('max', 'min', 'max_skipnan', 'min_skipnan') else (ks[0] if v.rank == 1 else Tup(ks))
        if n.endswith('_skipnan') and not n.startswith('arg'): return res
        if ip.entails(ne_): return OK(res)
        return SymEn([(ne_, OK(res)), (bnot(ne_), ERR(Opq('MinMaxError')))])
    if n == 'assign':
        b = arg(0)
        recv.set(bcast(ip, b, d, line)); return UNIT
    if n == 'fill':
        x = arg(0); recv.set(Arr(d, lambda *i: x, v.kind)); return UNIT
    if n == 'broadcast':
        sh = dims_arg(ip, arg(0))
        return SOME(bcast(ip, v, sh, line))
    if n == 'copy_from_slice' or n == 'clone_from_slice':
        b = arg(0); ip.oblige('lengths agree', eq(d[0], b.dims[0]), line); recv.set(Arr(d, b.fn, v.kind)); return UNIT
    if n == 'push':
        x = arg(0)
        recv.set(Arr([add(d[0], 1)], (lambda i: x) if isnum(d[0], 0) else (lambda i: merge2(lt(i, d[0]), v.at(i), x)), v.kind)); return UNIT
    if n == 'insert' and v.rank == 1:
        k = arg(0); x = arg(1)
        ip.oblige('insert index in bounds', band(ge(k, 0), le(k, d[0])), line)
        recv.set(Arr([add(d[0], 1)], lambda i: merge2(lt(i, k), v.at(i), merge2(eq(i, k), x, v.at(sub(i, 1)))) if not isnum(d[0], 0) else x, v.kind)); return UNIT
    if n in ('remove', 'swap_remove') and v.rank == 1:
        k = arg(0)
        ip.oblige('remove index in bounds', band(ge(k, 0), lt(k, d[0])), line)
        x = v.at(k)
        if n == 'remove': recv.set(Arr([sub(d[0], 1)], lambda i: merge2(lt(i, k), v.at(i), v.at(add(i, 1))), v.kind))
        else: recv.set(Arr([sub(d[0], 1)], lambda i: merge2(eq(i, k), v.at(sub(d[0], 1)), v.at(i)), v.kind))
        return x
    if n == 'pop':
        if ip.branch(gt(d[0], 0)):
            x = v.at(sub(d[0], 1)); recv.set(Arr([sub(d[0], 1)], v.fn, v.kind)); return SOME(x)
        return NONE()
    if n == 'clear': recv.set(Arr([z3.IntVal(0)], v.fn, v.kind)); return UNIT
    if n == 'truncate': recv.set(Arr([minr(d[0], arg(0))], v.fn, v.kind)); return UNIT
    if n == 'extend' or n == 'append' and v.kind == 'vec':
        it = guard_sel(ip, ip.to_iter(rarg(0)))
        a = ip.collect(it)
        recv.set(Arr([add(d[0], a.dims[0])], (lambda i: a.at(i)) if isnum(d[0], 0) else (lambda i: merge2(lt(i, d[0]), v.at(i), a.at(sub(i, d[0])))), v.kind)); return UNIT
    if n in ('append', 'push_row', 'push_column'):
        if n == 'append': ax = axis_of(arg(0)); b = arg(1)
        else:
            ax = 0 if n == 'push_row' else 1; r = arg(0)
            b = Arr([z3.IntVal(1), r.dims[0]], lambda i, j: r.at(j)) if ax == 0 else Arr([r.dims[0], z3.IntVal(1)], lambda i, j: r.at(i))
        recv.set(concat(ip, ax, [v, b], line)); return OK(UNIT)
    if n == 'swap':
        i, j = arg(0), arg(1)
        I = idxs(i); J = idxs(j)
        for X in (I, J): ip.oblige('swap index in bounds', band(*[band(ge(x, 0), lt(x, dd)) for x, dd in zip(X, d)]), line)
        vi, vj = v.at(*I), v.at(*J)
        recv.set(Arr(d, lambda *k: merge2(band(*[eq(a, b) for a, b in zip(k, I)]), vj, merge2(band(*[eq(a, b) for a, b in zip(k, J)]), vi, v.at(*k))), v.kind)); return UNIT
    if n == 'reverse': recv.set(Arr(d, lambda i: v.at(sub(sub(d[0], 1), i)), v.kind)); return UNIT
    if n in ('get', 'get_mut'):
        i = arg(0); I = idxs(i)
        c = band(*[band(ge(x, 0), lt(x, dd)) for x, dd in zip(I, d)])
        if ip.branch(c): return SOME(elem_place(recv, I) if n == 'get_mut' else v.at(*I))
        return NONE()
    if n in ('first', 'last', 'first_mut', 'last_mut'):
        k = z3.IntVal(0) if n.startswith('first') else sub(d[0], 1)
        if ip.branch(gt(d[0], 0)): return SOME(elem_place(recv, [k]) if n.endswith('_mut') else v.at(k))
        return NONE()
    if n == 'split_first':
        if ip.branch(gt(d[0], 0)): return SOME(Tup([v.at(z3.IntVal(0)), Arr([sub(d[0], 1)], lambda i: v.at(add(i, 1)), v.kind)]))
        return NONE()
    if n == 'split_last':
        if ip.branch(gt(d[0], 0)): return SOME(Tup([v.at(sub(d[0], 1)), Arr([sub(d[0], 1)], v.fn, v.kind)]))
        return NONE()
    if n == 'split_at':
        if v.rank == 1:
            k = arg(0)
            return Tup([Arr([k], v.fn, v.kind), Arr([sub(d[0], k)], lambda i: v.at(add(i, k)), v.kind)])
    if n == 'contains':
        x = arg(0)
        return quant(ip, d[0], lambda i: qv(ip, lambda: ip.compare('==', deref(v.at(i)), x)), True)
    if n == 'concat':
        return ip.collect(flat(ip, ip.to_iter(v), None, e))
    if n in ('diag',):
        return Arr([d[0]], lambda i: v.at(i, i))
    if n == 'diag_mut':
        return DiagPlace(recv)
    if n in ('into_shape', 'into_shape_with_order', 'to_shape', 'reshape', 'into_shape_clone'):
        sh = dims_arg(ip, arg(0))
        r = reshape(ip, v, sh, line)
        return r if n == 'reshape' else OK(r)
    if n in ('into_dimensionality',): return OK(v)
    if n in ('fold',):
        if v.rank == 1: return fold(ip, It(d[0], lambda i: v.at(i)), ip.ev(A[0], env), arg(1), e)
        return fold(ip, It2(v), ip.ev(A[0], env), arg(1), e)
    if n == 'fold_axis':
        ax = axis_of(arg(0)); init = arg(1); f = arg(2)
        dims = [x for k, x in enumerate(d) if k != ax]
        return ip.lazy(lambda *i: fold(ip, It(d[ax], lambda j: v.at(*remove_axis_idx(i, ax, j))), init, f, e), dims, 'nd')
    if n in ('indexed_iter',):
        if v.rank == 1: return It(d[0], lambda i: Tup([i, v.at(i)]))
        raise Unsupported(n)
    if n == 'for_each':
        f = arg(0); ip.loop_over(ip.to_iter(v), lambda x: ip.call_value(f, [x], line), e); return UNIT
    if n == 'shuffle':
        p, q = permutation(ip, d[0], e); recv.set(Arr(d, lambda i: v.at(p(i)), v.kind)); return UNIT
    if n in ('sort', 'sort_unstable', 'sort_by', 'sort_unstable_by', 'sort_by_key', 'sort_unstable_by_key'):
        p, q = permutation(ip, d[0], e, 'sorted')
        w = Arr(d, lambda i: v.at(p(i)), v.kind)
        if n in ('sort', 'sort_unstable'): ordp = lambda a, b: ip.compare('<=', deref(a), deref(b)) if is_scalar(deref(a)) else z3.BoolVal(True)
        elif n.endswith('key'):
            f = arg(0); ordp = lambda a, b: le(deref(ip.call_value(f, [a])), deref(ip.call_value(f, [b])))
        else:
            f = arg(0); ordp = lambda a, b: order_pred(ip, f, a, b)
        from .loops import Univ2
        if not ip.lz:
            pc0 = list(ip.pc); st0 = dict(ip.store)
            def u2(i, j):
                return implies(band(ge(i, 0), lt(i, j), lt(j, d[0])), in_state(ip, st0, pc0, lambda: qv(ip, lambda: ordp(w.at(i), w.at(j)))))
            ip.univ.append(Univ2(u2))
        recv.set(w); return UNIT
    if n == 'as_ptr' or n == 'as_mut_ptr': raise Unsupported("raw pointer")
    if n in ('cholesky', 'cholesky_into'):
        L = cholesky(ip, v)
        if getattr(ip, 'positive_definite', False): return OK(L)     # precondition of the unit
        ok = fresh('chol_ok', BS)
        return SymEn([(ok, OK(L)), (bnot(ok), ERR(Opq('LinalgError')))])
    if n == 'qr' and v.rank == 2:
        # thin QR: v = Q G, Q with orthonormal columns, G upper triangular; the factors are functions of v
        h = matkey(v); q, g = z3.Function('qr_q_' + h, IS, IS, RS), z3.Function('qr_r_' + h, IS, IS, RS); QR[h] = v
        Q, G = Arr(list(d), lambda i, j: q(lift(i), lift(j))), Arr([d[1], d[1]], lambda i, j: ite(le(i, j), g(lift(i), lift(j)), z3.RealVal(0)))
        return OK(Opq('qr', methods={'into_decomp': lambda ip_, me_, b: Tup([Q, G])}))
    if n == 'svd' and v.rank == 2:
        sv = z3.Function('svd_' + matkey(v), IS, RS); k = ite(le(d[0], d[1]), d[0], d[1])
        return OK(Tup([NONE(), Arr([k], lambda i: sv(lift(i))), NONE()]))
    if n in ('solve_triangular', 'solve_triangular_into', 'solve_triangular_inplace'):
        b = arg(0); ul = arg(1)
        if not isinstance(ul, En): raise Unsupported("uplo")
        ip.oblige('triangular solve shapes', band(eq(d[0], d[1]), eq(d[0], b.dims[0])), line)
        f = inv_tri(ip, v, ul.var)
        if b.rank == 2: r = Arr(b.dims, lambda i, j: mkred('sum', d[0], lambda k: mul(f(i, k), deref(b.at(k, j)))))
        else: r = Arr(b.dims, lambda i: mkred('sum', d[0], lambda k: mul(f(i, k), deref(b.at(k)))))
        return OK(r)
    if n == 'abs_sub': return None
    if n in ('all', 'any') and v.rank == 1:
        f = arg(0)
        return quant(ip, d[0], lambda i: qv(ip, lambda: lift(deref(ip.call_value(f, [v.at(i)])))), n == 'any')
    if n in ('into_raw_vec_and_offset',):
        return Tup([ip.collect(ip.to_iter(v)), SOME(z3.IntVal(0))])
    if n in ('to_slice', 'as_slice_memory_order', 'into_array', 'try_into'): return SOME(v)
    if n in ('abs_diff_eq', 'ulps_eq', 'relative_eq'): raise Unsupported(n)
    if n in ('is_standard_layout', 'is_square'): return eq(d[0], d[1]) if n == 'is_square' else z3.BoolVal(True)
    if n in ('chunks', 'windows', 'chunks_exact', 'axis_chunks_iter', 'axis_windows'): raise Unsupported(n)
    if n in ('iter_fold', 'records', 'targets'): return NotImplemented
    if n == 'join': return '<str>'
    if n in ('enumerate', 'zip', 'filter', 'map', 'position', 'rev', 'take', 'skip', 'filter_map', 'flat_map', 'count', 'chain', 'unzip', 'product', 'collect', 'and_then', 'min_by', 'max_by', 'find', 'copied'):
        return m_iter(ip, ip.to_iter(recv), n, arg, rarg, A, e, env)
    if n in ('scaled_add',):
        al = arg(0); b = arg(1)
        recv.set(ip.zipw(lambda x, y: add(x, mul(al, y)), v, b, line, True)); return UNIT
    if n in ('outer_iter_', ): pass
    if n == 'next': return NotImplemented
    return NotImplemented

def in_state(ip, st, pc, th):
    s, p = ip.store, ip.pc
    ip.store = dict(st); ip.pc = list(pc)
    try: return th()
    finally: ip.store, ip.pc = s, p

class DiagPlace(Place):
    def __init__(self, base): self.base = base
    def get(self):
        b = deref(self.base)
        return Arr([b.dims[0]], lambda i: b.at(i, i))
    def set(self, x):
        b = deref(self.base)
        self.base.set(Arr(b.dims, lambda i, j: merge2(eq(i, j), x.at(i), b.at(i, j)), b.kind))

QR = {}
def matkey(A):
    i0, j0 = z3.Int('cv!0'), z3.Int('cv!1')
    t = canon(lift(deref(A.at(i0, j0))))
    return hashlib.md5((tensor.text(t) + '|' + z3.simplify(A.dims[0]).sexpr()).encode()).hexdigest()[:10]
def cholesky(ip, A):
    i0, j0 = z3.Int('cv!0'), z3.Int('cv!1')
    t = canon(lift(deref(A.at(i0, j0))))
    h = hashlib.md5((tensor.text(t) + '|' + z3.simplify(A.dims[0]).sexpr()).encode()).hexdigest()[:10]
    f = z3.Function('chol_' + h, IS, IS, RS)
    CHOL[f.name()] = A
    return Arr(A.dims, lambda i, j: f(i, j))
CHOL = {}

def idxs(i):
    i = deref(i)
    if isinstance(i, Tup): return [lift(deref(x)) for x in i.es]
    if isinstance(i, Arr): return [lift(deref(i.at(z3.IntVal(k)))) for k in range(int(numval(i.dims[0])))]
    return [lift(i)]

def dims_arg(ip, s):
    s = deref(s)
    if isinstance(s, Tup): return [asint(deref(x)) for x in s.es]
    if isinstance(s, Arr): return [asint(deref(s.at(z3.IntVal(k)))) for k in range(int(numval(s.dims[0])))]
    return [asint(s)]
def asint(x):
    x = lift(x)
    if x.sort() == RS and isnum(x): return z3.IntVal(int(numval(x)))
    return x

def bcast(ip, b, dims, line=0):
    b = deref(b)
    if is_scalar(b): return Arr(dims, lambda *i: b)
    k0 = len(dims) - b.rank
    if k0 < 0: raise Unsupported("broadcast rank")
    mode = []
    for k, x in enumerate(b.dims):
        t = dims[k + k0]
        if ip.same_dim(x, t): mode.append(0)
        elif isnum(x, 1): mode.append(1)
        elif ip.entails(eq(x, t)): mode.append(0)
        elif ip.entails(eq(x, 1)): mode.append(1)
        else:
            ip.oblige('assigned shape agrees', bor(eq(x, t), eq(x, 1)), line); mode.append(0)
    return Arr(dims, lambda *i: b.at(*[z3.IntVal(0) if m else i[k + k0] for k, m in enumerate(mode)]))

def reshape(ip, v, sh, line):
    tot = z3.IntVal(1)
    for x in v.dims: tot = mul(tot, x)
    t2 = z3.IntVal(1)
    for x in sh: t2 = mul(t2, x)
    ip.oblige('reshape size agrees', eq(tot, t2), line)
    # drop / insert unit axes
    a = [x for x in v.dims if not isnum(x, 1)]; b = [x for x in sh if not isnum(x, 1)]
    if len(a) == len(b) and all(ip.same_dim(x, y) for x, y in zip(a, b)):
        def fn(*i):
            it = iter([x for x, s in zip(i, sh) if not isnum(s, 1)])
            return v.at(*[z3.IntVal(0) if isnum(x, 1) else next(it) for x in v.dims])
        return Arr(sh, fn)
    if v.rank == 1 and len(sh) == 2: return Arr(sh, lambda i, j: v.at(add(mul(i, sh[1]), j)))
    if v.rank == 2 and len(sh) == 1: return Arr(sh, lambda i: v.at(div(i, v.dims[1]), mod(i, v.dims[1])))
    if v.rank == 2 and len(sh) == 2:
        def f2(i, j):
            p = add(mul(i, sh[1]), j)
            return v.at(div(p, v.dims[1]), mod(p, v.dims[1]))
        return Arr(sh, f2)
    raise Unsupported("reshape")

def slice_axes(ip, v, se, env, line):
    if se['k'] == 'ref': se = se['e']
    if se['k'] != 'macro' or se['name'] != 's': raise Unsupported("slice argument")
    axes = []; k = 0
    for it in se['items']:
        x = it['e']
        if k >= v.rank: raise Unsupported("slice rank")
        dim = v.dims[k]
        if it['step'] is not None:
            raise Unsupported("slice step")
        if x['k'] == 'range': axes.append(ip.range_axis(x, dim, env, line)); k += 1; continue
        val = ip.evd(x, env)
        if isinstance(val, Newaxis): raise Unsupported("newaxis")
        if isinstance(val, Range):
            lo = val.lo if val.lo is not None else z3.IntVal(0); hi = val.hi if val.hi is not None else dim
            if val.incl: hi = add(hi, 1)
            ip.oblige('slice in bounds', band(le(0, lo), le(lo, hi), le(hi, dim)), line)
            axes.append(('rng', lo, z3.simplify(sub(hi, lo)), not hi.eq(dim))); k += 1; continue
        if isnum(val) and numval(val) < 0: val = add(dim, val)
        ip.oblige('slice index in bounds', band(ge(val, 0), lt(val, dim)), line)
        axes.append(('fix', lift(val))); k += 1
    if k != v.rank: raise Unsupported("slice rank")
    return axes, False

def concat(ip, ax, arrs, line=0):
    arrs = [deref(a) for a in arrs]
    r = arrs[0].rank
    for a in arrs[1:]:
        for k in range(r):
            if k != ax: ip.oblige('concatenated shapes agree', eq(a.dims[k], arrs[0].dims[k]), line)
    offs = [z3.IntVal(0)]
    for a in arrs: offs.append(add(offs[-1], a.dims[ax]))
    dims = [offs[-1] if k == ax else arrs[0].dims[k] for k in range(r)]
    nonempty = [(a, o) for a, o in zip(arrs, offs) if not isnum(a.dims[ax], 0)]
    def fn(*i):
        if not nonempty: return arrs[0].at(*i)
        a, o = nonempty[-1]
        f = lambda a, o: a.at(*[sub(x, o) if k == ax else x for k, x in enumerate(i)])
        res = f(a, o)
        for a, o in reversed(nonempty[:-1]): res = pick2(ip, lt(i[ax], add(o, a.dims[ax])), lambda a=a, o=o: f(a, o), lambda res=res: res)
        return res
    return Arr(dims, fn)

# ---------------------------------------------------------------- rng
def m_rng(ip, v, n, arg, A, e, env):
    if v.hook:
        r = v.hook(ip, n, [arg(i) for i in range(len(A))], e)
        if r is not NotImplemented: return r
    if n in ('gen', 'random', 'sample', 'gen_range', 'random_range', 'gen_bool'):
        if n in ('gen_range', 'random_range'):
            r = arg(0)
            lo, hi = lift(r.lo), lift(r.hi)
            x, ow = ip.sk('draw', lo.sort(), e)
            ip.oblige('range not empty', le(lo, hi) if r.incl else lt(lo, hi), e.get('line', 0))
            ip.fact(ow, 'r', band(le(lo, x), le(x, hi) if r.incl else lt(x, hi)))
            return x
        if n == 'sample':
            dd = arg(0)
            if isinstance(dd, Dist): return dd.draw(ip, e)
        x, ow = ip.sk('u01', RS, e)
        ip.fact(ow, 'r', band(le(z3.RealVal(0), x), lt(x, z3.RealVal(1))))
        return x
    if n in ('clone',): return v
    if n in ('next_u64', 'next_u32'):
        x, ow = ip.sk('bits', IS, e); return x
    return NotImplemented

# ---------------------------------------------------------------- path calls
def path_call(ip, segs, owner, n, args, f, e, env):
    line = f.get('line', 0) if f else 0
    a = args
    d = [deref(x) for x in args]
    gen = f['p']['gen'] if f else []
    if n == 'Axis': return Axis(int(numval(d[0])))
    if n in LIBM and len(d) == 1 and owner in (None, 'libm', 'f64', 'F'):
        r = LIBM[n](toreal(d[0]))
        ip.calls['libm::' + n] = 1
        return r
    if n == 'einsum' and isinstance(d[0], str):
        ins_, out_ = d[0].replace(' ', '').split('->')
        ops = d[1]
        ops = [deref(ops.at(z3.IntVal(k))) for k in range(int(numval(ops.dims[0])))] if isinstance(ops, Arr) else [deref(x) for x in ops.es]
        size = {}
        for lab, o in zip(ins_.split(','), ops):
            for c, dm in zip(lab, o.dims):
                if c in size: ip.oblige('einsum shapes agree', eq(size[c], dm), line)
                else: size[c] = dm
        rest = [c for c in size if c not in out_]
        def fn(*idx):
            m = dict(zip(out_, idx))
            def go(k, m):
                if k == len(rest):
                    r = z3.RealVal(1)
                    for lab, o in zip(ins_.split(','), ops): r = mul(r, deref(o.at(*[m[c] for c in lab])))
                    return r
                return mkred('sum', size[rest[k]], lambda i: go(k + 1, dict(m, **{rest[k]: i})))
            return go(0, m)
        return OK(Arr([size[c] for c in out_], fn))
    if n == 'RefCell' or (owner in ('Box', 'Rc', 'Arc', 'RefCell', 'RwLock', 'Mutex', 'Cell', 'Cow', 'Some') and n == 'new'): return a[0]
    if owner in ('Array', 'Array1', 'Array2', 'Array3', 'ArrayBase', 'ArrayView1', 'ArrayView2', 'ArrayView', 'CowArray'):
        g = ''.join(gen).replace(' ', '') + getattr(ip, 'tyhint', '')
        isint = any(t in g for t in ('usize', 'i32', 'i64', 'u32', 'isize'))
        zero = (z3.IntVal if isint else z3.RealVal)
        if 'bool' in g and n in ('default',): zero = lambda x: z3.BoolVal(False)
        if n in ('zeros', 'default'):
            return Arr(dims_arg(ip, d[0]), lambda *i: zero(0))
        if n == 'uninit': return Arr(dims_arg(ip, d[0]), lambda *i: zero(0))
        if n == 'ones': return Arr(dims_arg(ip, d[0]), lambda *i: zero(1))
        if n == 'eye': return Arr([d[0], d[0]], lambda i, j: ite(eq(i, j), z3.RealVal(1), z3.RealVal(0)))
        if n == 'from_elem': return Arr(dims_arg(ip, d[0]), lambda *i: d[1])
        if n in ('from_vec', 'from_iter', 'from'):
            v = d[0]
            if isinstance(v, (It, Range)): v = ip.collect(ip.to_iter(v), 'nd')
            if v.rank == 1 and owner in ('Array2', 'ArrayView2'):
                inner = deref(v.at(fresh('ix', IS))) if not isnum(v.dims[0]) else deref(v.at(z3.IntVal(0)))
                if isinstance(inner, Arr):
                    return Arr([v.dims[0], inner.dims[0]], lambda i, j: deref(v.at(i)).at(j))
            return Arr(v.dims, v.fn, 'nd', v.meta)
        if n in ('from_shape_vec', 'from_shape'):
            v = d[1]; return OK(reshape(ip, v if v.rank == 1 else v, dims_arg(ip, d[0]), line))
        if n == 'from_shape_fn':
            sh = dims_arg(ip, d[0])
            return ip.lazy(lambda *i: ip.call_value(d[1], [i[0] if len(i) == 1 else Tup(list(i))]), sh, 'nd')
        if n == 'from_shape_simple_fn':
            sh = dims_arg(ip, d[0])
            return ip.lazy(lambda *i: ip.call_value(d[1], []), sh, 'nd')
        if n == 'linspace':
            lo, hi, m = toreal(d[0]), toreal(d[1]), d[2]
            def fn(i):
                step = ite(gt(m, 1), div(sub(hi, lo), toreal(sub(m, 1))), z3.RealVal(0))
                return add(lo, mul(toreal(i), step))
            return Arr([m], fn)
        if n == 'range':
            lo, hi, st = toreal(d[0]), toreal(d[1]), toreal(d[2])
            m = ceil(div(sub(hi, lo), st)); m = z3.ToInt(m) if lift(m).sort() == RS else m
            return Arr([maxr(m, z3.IntVal(0))], lambda i: add(lo, mul(toreal(i), st)))
        if n in ('random', 'random_using'):
            sh = dims_arg(ip, d[0])
            return ip.lazy(lambda *i: d[1].draw(ip, e or f), sh, 'nd')
        if n == 'from_diag': return Arr([d[0].dims[0]] * 2, lambda i, j: ite(eq(i, j), d[0].at(i), z3.RealVal(0)))
    if owner == 'Zip':
        if n in ('from', 'indexed'):
            dims, fn = producer(ip, a[0])
            return Zp([fn], n == 'indexed', dims)
    if owner == 'Vec' or owner == 'VecDeque':
        if n in ('new', 'with_capacity', 'default'): return Arr([z3.IntVal(0)], lambda i: z3.RealVal(0), 'vec')
        if n in ('from', 'from_iter'): return d[0] if isinstance(d[0], Arr) else ip.collect(ip.to_iter(a[0]))
    if n == 'zip' and owner in ('iter', None, 'std'):
        i, j = ip.to_iter(a[0]), ip.to_iter(a[1])
        i, j = guard_sel(ip, i), guard_sel(ip, j)
        m = i.n if (i.n.eq(j.n) or ip.entails(eq(i.n, j.n))) else minr(i.n, j.n)
        return It(m, lambda k: Tup([i.fn(k), j.fn(k)]))
    if owner == 'iter':
        if n == 'repeat': return It(z3.Int('inf!'), lambda i: d[0])
        if n == 'once': return It(z3.IntVal(1), lambda i: d[0])
        if n == 'empty': return It(z3.IntVal(0), lambda i: z3.RealVal(0))
        if n == 'repeat_n': return It(d[1], lambda i: d[0])
        if n == 'repeat_with': return It(z3.Int('inf!'), lambda i: ip.call_value(d[0], []))
    if n in ('concatenate', 'stack') and owner in (None, 'ndarray'):
        ax = axis_of(d[0]); l = d[1]
        if isinstance(l, Arr) and isnum(l.dims[0]):
            arrs = [deref(l.at(z3.IntVal(k))) for k in range(int(numval(l.dims[0])))]
            if n == 'stack': arrs = [insert_ax(x, ax) for x in arrs]
            return OK(concat(ip, ax, arrs, line))
        # unbounded list of equal-sized pieces
        i0 = fresh('ix', IS); x0 = deref(l.at(i0))
        if n == 'stack':
            return OK(Arr(ins(list(x0.dims), ax, l.dims[0]), lambda *i: deref(l.at(i[ax])).at(*[x for k, x in enumerate(i) if k != ax])))
        c = x0.dims[ax]
        if isnum(c, 1):
            return OK(Arr([l.dims[0] if k == ax else x for k, x in enumerate(x0.dims)], lambda *i: deref(l.at(i[ax])).at(*[z3.IntVal(0) if k == ax else x for k, x in enumerate(i)])))
        raise Unsupported("concatenate of a symbolic list")
    if n in ('arr1', 'aview1'): return Arr(d[0].dims, d[0].fn, 'nd')
    if n == 'aview0' or n == 'arr0': return Arr([], lambda: d[0])
    if n in ('arr2', 'aview2'):
        v = d[0]
        x0 = deref(v.at(z3.IntVal(0)))
        return Arr([v.dims[0], x0.dims[0]], lambda i, j: deref(v.at(i)).at(j))
    if owner in ('F', 'f64', 'f32', 'Self', 'T', 'NdFloat') or (owner is None and n in ('cast',)) or owner == 'Float':
        if n in ('cast', 'from', 'from_f64', 'from_usize'):
            x = toreal(d[0]) if is_scalar(d[0]) else d[0]
            return SOME(x) if n.startswith('from_') else x
        if n == 'zero': return z3.RealVal(0)
        if n == 'one': return z3.RealVal(1)
        if n == 'infinity': return INF(ip)
        if n == 'neg_infinity': return neg(INF(ip))
        if n == 'nan': return z3.Const('F64_NAN', RS)
        if n == 'epsilon': return z3.RealVal(Fraction(1, 2 ** 52))
        if n in ('PI',): return z3.Const('PI', RS)
        if n == 'max_value': return z3.Const('F64_MAX', RS)
        if n == 'min_value': return neg(z3.Const('F64_MAX', RS))
        if n == 'min_positive_value': return z3.RealVal(Fraction(1, 2 ** 1022))
        if n == 'max': return maxr(d[0], d[1])
        if n == 'min': return minr(d[0], d[1])
        if n in SCAL1: return SCAL1[n](d[0])
        if n in ('powf', 'powi'): return powr(d[0], d[1])
        if n == 'total_cmp': return cmp_(d[0], d[1])
        if n == 'clamp': return minr(maxr(d[0], d[1]), d[2])
    if owner in ('usize', 'i32', 'u64', 'u32', 'i64') and n in ('min', 'max'):
        return minr(d[0], d[1]) if n == 'min' else maxr(d[0], d[1])
    if owner in ('usize', 'i32', 'u64') and n in ('from', 'pow', 'abs'):
        return as_usize(d[0]) if n == 'from' else NotImplemented
    if owner in ('cmp', None) and n in ('max_by', 'min_by') and len(d) == 3:
        r = resolve(ip, deref(ip.call_value(d[2], [a[0], a[1]])))
        less = r.var != 'Greater'
        return d[0] if less == (n == 'min_by') else d[1]
    if owner in ('cmp', None) and n in ('max', 'min') and len(d) == 2:
        return maxr(d[0], d[1]) if n == 'max' else minr(d[0], d[1])
    if owner == 'Uniform' and n in ('new', 'new_inclusive'):
        return Dist('uniform', toreal(d[0]), toreal(d[1]))
    if owner == 'Normal' and n in ('new', 'standard'):
        if n == 'standard': return Dist('normal')
        if isnum(d[0], 0) and isnum(d[1], 1): return OK(Dist('normal'))
    if owner in ('Xoshiro256Plus', 'SmallRng', 'StdRng', 'R') and n in ('seed_from_u64', 'from_entropy', 'from_os_rng', 'from_rng'): return Rng()
    if n in ('thread_rng', 'rng') and not args: return Rng()
    if n == 'swap' and owner == 'mem':
        x, y = d[0], d[1]; a[0].set(y); a[1].set(x); return UNIT
    if n == 'take' and owner == 'mem':
        x = d[0]
        raise Unsupported("mem::take")
    if n == 'drop': return UNIT
    if n == 'Default' or (n == 'default' and owner in ('Default',)): raise Unsupported("default")
    if n == 'erfc': return erfc(d[0])
    if n == 'erf': return uf('erf', toreal(d[0]))
    if owner in ('Dataset', 'DatasetBase') and n == 'new': return St('Dataset', {'records': d[0], 'targets': d[1]})
    if owner in ('Instant', 'SystemTime'): return Opq('time', {'elapsed': lambda *x: Opq('duration', {})})
    if owner == 'Some': return SOME(a[0])
    if owner == 'HashMap' or owner == 'HashSet' or owner == 'BTreeMap': raise Unsupported("map type")
    if owner == 'String' and n in ('from', 'new'): return d[0] if d and isinstance(d[0], str) else '<str>'
    if n in ('cbrt',): return NotImplemented
    if owner in ('slice',) and n == 'from_ref': return from_list([d[0]], 'vec')
    # Type::method(self, ..) form
    if d and n not in ('new', 'default'):
        fake = {'k': 'mcall', 'm': n, 'args': [], 'line': line, 'gen': gen}
        if is_scalar(d[0]) and n in SCAL1: return SCAL1[n](d[0])
        if n == 'len' and isinstance(d[0], Arr): return d[0].dims[0]
    return NotImplemented

def ins(l, k, x): l.insert(k, x); return l
def insert_ax(x, ax):
    dims = ins(list(x.dims), ax, z3.IntVal(1))
    return Arr(dims, lambda *i: x.at(*[y for k, y in enumerate(i) if k != ax]))

def index_other(ip, v, e, env): 
    if isinstance(v, Opq) and 'index' in v.methods: return v.methods['index'](ip, v, [ip.evd(e['i'], env)])
    return None
def duration_arith(*a): return None

# ---------------------------------------------------------------- macros
SKIP = {'println', 'print', 'eprintln', 'debug', 'info', 'warn', 'trace', 'error', 'log', 'writeln', 'write', 'dbg'}
def macro(ip, e, env):
    n = e['name']
    if n in SKIP: return UNIT if n not in ('write', 'writeln') else OK(UNIT)
    if n in ('format',): return '<str>'
    if e.get('err'): raise Unsupported(f"macro {n}")
    line = e.get('line', 0)
    if n in ('panic', 'unreachable', 'todo', 'unimplemented'):
        raise PanicEx(n + (': ' + str(e['args'][0].get('v', '')) if e['args'] else ''), line)
    if n in ('assert', 'debug_assert'):
        c = ip.evd(e['args'][0], env)
        ip.oblige('assertion holds', c, line); ip.pc.append(lift(c)) if ip.quiet else None
        return UNIT
    if n in ('assert_eq', 'debug_assert_eq'):
        a, b = ip.evd(e['args'][0], env), ip.evd(e['args'][1], env)
        ip.oblige('assertion holds', ip.compare('==', a, b), line); return UNIT
    if n in ('vec',):
        vs = [ip.val(x, env) for x in e['args']]
        return from_list([deref(v) if not isinstance(v, Clo) else v for v in vs], 'vec')
    if n == 'vec_repeat':
        v, m = ip.evd(e['args'][0], env), ip.evd(e['args'][1], env)
        return Arr([m], lambda i: v, 'vec')
    if n == 'array':
        vs = [deref(ip.val(x, env)) for x in e['args']]
        if not vs: return Arr([z3.IntVal(0)], lambda i: z3.RealVal(0))
        if all(is_scalar(v) for v in vs): return from_list(vs, 'nd')
        if isinstance(vs[0], Arr):
            x0 = vs[0]
            inner = deref(x0.at(z3.IntVal(0))) if isnum(x0.dims[0]) and numval(x0.dims[0]) > 0 else None
            if isinstance(inner, Arr):
                return Arr([z3.IntVal(len(vs)), x0.dims[0], inner.dims[0]], lambda i, j, k: deref(deref(from_list(vs, 'vec').at(i)).at(j)).at(k))
            from .interp import pick
            return Arr([z3.IntVal(len(vs)), x0.dims[0]], lambda i, j: pick(vs, i, lambda a: a.at(j)))
        return from_list(vs, 'nd')
    if n in ('concatenate', 'stack'):
        ax = axis_of(ip.evd(e['args'][0], env))
        arrs = [ip.evd(x, env) for x in e['args'][1:]]
        if n == 'stack': arrs = [insert_ax(x, ax) for x in arrs]
        return concat(ip, ax, arrs, line)
    if n == 's': raise Unsupported("bare slice")
    if n == 'matches': raise Unsupported("matches")
    if n == 'azip': raise Unsupported("azip")
    if n == 'concat': return '<str>'
    raise Unsupported(f"macro {n}")
