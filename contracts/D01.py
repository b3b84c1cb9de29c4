"""D01: size and domain of designs of experiments."""
from rvc.vc import *
from rvc.units import unit
I, R = z3.IntVal, z3.RealVal
LEVEL = 'other'
T_ = 'doe::traits'
RNG = lambda: Opq('lock', methods={'write': lambda ip, me, a: OK(Opq('rng'))})

@unit('affine map', [T_ + '::SamplingMethod::sample'])
def sample():
    v = V('D01', 'sample'); ns, nx = v.dim('ns', 0), v.dim('nx'); lim = v.arr('lim', [nx, I(2)]); u = v.arr('unit', [ns, nx])
    v.forall(lambda j: implies(band(ge(j, 0), lt(j, nx)), le(lim.at(j, I(0)), lim.at(j, I(1)))))
    def normalized(ip, me, a):
        if not eq_dim(a[0], ns): raise Unsupported('another number of points')
        return u
    eq_dim = lambda a, b: z3.simplify(lift(deref(a)) - b).eq(I(0))
    me = Opq('method', methods={'sampling_space': lambda ip, me_, a: lim, 'normalized_sample': normalized})
    for p in v.call('sample', [me, ns], owner='SamplingMethod', mod=T_):
        with p:
            r = deref(p.value); i, j = p.ix(ns), p.ix(nx); lo, hi = lim.at(j, I(0)), lim.at(j, I(1)); t = u.at(i, j)
            p.ensure('the requested number of points', eq(r.dims[0], ns)); p.ensure('one coordinate per variable', eq(r.dims[1], nx))
            p.ensure('affine image of the unit design', eq(r.at(i, j), add(lo, mul(t, sub(hi, lo)))))
            inside = band(ge(t, R(0)), le(t, R(1)))
            p.ensure('within the bounds', band(ge(r.at(i, j), lo), le(r.at(i, j), hi)), extra=[inside, le(lo, hi), ge(mul(t, sub(hi, lo)), R(0)), ge(mul(sub(R(1), t), sub(hi, lo)), R(0))])
    v.vacuity()
    return v

def unit_design(name, owner, mod, trait=None, kind=None):
    v = V('D01', name); ns, nx = v.dim('ns', 1), v.dim('nx'); lim = v.arr('lim', [nx, I(2)])
    me = St(owner, {'xlimits': lim, 'rng': RNG(), 'kind': En(kind) if kind else Opq('kind')})
    for p in v.call(name, [me, ns], owner=owner, mod=mod, **({'trait': trait} if trait else {})):
        with p:
            r = deref(p.value); i, j = p.ix(ns), p.ix(nx)
            p.ensure('the requested number of points', eq(r.dims[0], ns)); p.ensure('one coordinate per variable', eq(r.dims[1], nx))
            p.ensure('in the unit hypercube', band(ge(r.at(i, j), R(0)), le(r.at(i, j), R(1))))
    v.vacuity()
    return v
unit('random design', ['doe::random::Random::normalized_sample'])(lambda: unit_design('normalized_sample', 'Random', 'doe::random', 'SamplingMethod'))
unit('classic Latin hypercube', ['doe::lhs::Lhs::_classic_lhs'])(lambda: unit_design('_classic_lhs', 'Lhs', 'doe::lhs'))
unit('centred Latin hypercube', ['doe::lhs::Lhs::_centered_lhs'])(lambda: unit_design('_centered_lhs', 'Lhs', 'doe::lhs'))
