"""helpers shared by the rules"""
from terms import *
from models import canonbyte
OPT = "core::option::Option"; RES = "core::result::Result"

def poss(ctx, p, v, adt):
    """variant indices the enum value v may have on path p"""
    if v[0] == "agg": return {v[3]}
    if v[0] == "upd" and v[1][0] == "agg": return {v[1][3]}
    a = ctx.p.adt(adt)
    d = ("discr", v, adt)
    n = len(a["variants"]) if a else 2
    dis = [x["discr"] for x in a["variants"]] if a else [0, 1]
    f = p.facts.get(d)
    if f is not None: return {i for i in range(n) if dis[i] == f}
    return {i for i in range(n) if dis[i] not in p.neg.get(d, ())}
def fld(v, var, i):
    if v[0] == "agg": return v[4][i]
    if v[0] == "upd":
        for s, x in v[2]:
            if s == ("f", var, i): return x
        return fld(v[1], var, i)
    return ("fld", v, var, i)
def same_result(ctx, p, ret, res, errmap=None):
    """ret is the Result res, possibly taken apart and put together again"""
    if ret == res: return True
    if ret is None or ret[0] != "agg" or ret[2] != RES: return False
    if ret[3] not in poss(ctx, p, res, RES) or len(poss(ctx, p, res, RES)) != 1: return False
    if ret[3] == 0: return ret[4][0] in (UNIT, fld(res, 0, 0))
    return ret[4][0] == fld(res, 1, 0) or (errmap is not None and errmap(ret[4][0], fld(res, 1, 0)))
def strip(v):
    """drop reference markers"""
    while v[0] in ("&", "boxed"): v = v[1]
    return v
def val(v):
    """value behind a (deep) reference argument"""
    if v[0] == "&": return v[1]
    return ("deref", v)
def calls(p, *names):
    return [e for e in p.trace if e.kind == "call" and any(e.cid == n or e.cid.endswith("::" + n) for n in names)]
def awaits(p, res):
    return [e for e in p.trace if e.kind == "await" and e.args and e.args[0] == res]
def awaited(p, e):
    """the value a call's future resolved to (None unless awaited exactly once)"""
    a = awaits(p, e.res)
    return a[0].res if len(a) == 1 else None
def field_index(ctx, adt, name):
    from core import Missing
    a = ctx.p.adt(adt)
    if a:
        for i, f in enumerate(a["variants"][0]["fields"]):
            n = f if isinstance(f, str) else (f["name"] if isinstance(f, dict) else f[0])
            if n == name: return i
    raise Missing("field %s of %s" % (name, adt))
def variant_index(ctx, adt, name):
    from core import Missing
    a = ctx.p.adt(adt)
    if a:
        for i, v in enumerate(a["variants"]):
            if v["name"] == name: return i
    raise Missing("variant %s of %s" % (name, adt))
def find_adt(ctx, suffix):
    from core import Missing
    c = [k for k in ctx.p.adts if k.endswith(suffix)]
    if len(c) != 1: raise Missing("type " + suffix)
    return c[0]
def bytes_of(E, v, w):
    """bytes of a plain key value of width w, constants included"""
    if v[0] == "constb": return tuple(I(x) for x in v[3])
    if w == 8:
        if v[0] == "call" and v[1].endswith("Key::from_bytes"): return tuple(canonbyte(E.elem(v[3], I(n))) for n in range(8))
        return tuple(("elem", ("kb", v), I(n)) for n in range(8))
    x = E.proj(v, ("f", 0, 0))
    if x[0] == "bytes": return tuple(I(b) for b in x[1])
    if w == 1: return (canonbyte(x),)
    return tuple(canonbyte(E.elem(x, I(n))) for n in range(w))
