"""Witnesses found in computed values."""
from rvc.vc import *

def walk(t):
    seen = set(); st = [lift(t)]
    while st:
        u = st.pop()
        if u.get_id() in seen: continue
        seen.add(u.get_id())
        if z3.is_app(u):
            yield u
            st.extend(u.children())

def named(t, name):
    """functions of that name in a term"""
    out = {}
    for u in walk(t):
        if u.num_args() and u.decl().name().startswith(name): out[u.decl().name()] = u.decl()
    return list(out.values())

def named_in(v, f, name):
    """the function of that name in the facts about f"""
    from rvc.interp import SCHEMAS
    z = fresh('z', IS)
    cands = list(v.ip.univ)
    for g in cands:
        try: u = lift(g(z))
        except Exception: continue
        if any(x.decl().eq(f) for x in walk(u)) and named(u, name): return named(u, name)[0]
    for slot, (idx, g) in SCHEMAS.get(f.name(), {}).items():
        u = lift(g(z)) if callable(g) else lift(g)
        if named(u, name): return named(u, name)[0]
    raise Unsupported('no ' + name)

def app_args(t, f):
    for u in walk(t):
        if u.num_args() and u.decl().eq(f): return list(u.children())
    raise Unsupported('no application')

def src_of(t, name):
    """the row of array `name` read in t"""
    rows = {u.arg(0).sexpr(): u.arg(0) for u in walk(canon(lift(t))) if u.num_args() and u.decl().name() == name}
    if len(rows) != 1: raise Unsupported(f'{len(rows)} rows of {name} read')
    return list(rows.values())[0]
