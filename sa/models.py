"""Abstract models of library functions the analysed code calls."""
from terms import *
import re

OPT = "core::option::Option"; RES = "core::result::Result"; CF = "core::ops::control_flow::ControlFlow"
MODELS = {}
PURE = set()

class Raw:
    def __init__(self, res): self.res = res

def model(*names):
    def deco(f):
        for n in names: MODELS[n] = wrap(f)
        return f
    return deco
def wrap(f):
    def g(E, st, c, *args):
        try:
            return f(E, st, c, *args)
        except NoModel:
            return NotImplemented
    return g
class NoModel(Exception): pass

def O(*n): return [OPT + "::" + x for x in n]
def R(*n): return [RES + "::" + x for x in n]
def S(*n): return ["[T]::" + x for x in n]
V = "alloc::vec::Vec::"

# ------------------------------------------------------------------ plumbing
def outs(E, c, branches):
    """branches: list of (st, value) or (st, ('apply', closure, args, cont))"""
    res = []
    for st, b in branches:
        if st.end is not None: res.append(st); continue
        if isinstance(b, list) and b and b[0] == "apply":
            r = E.apply_fn(st, b[1], b[2], b[3], c, c.dest, c.tgt)
        else:
            r = E.deliver(st, c.dest, c.tgt, b)
        res.extend(r if r is not None else [st])
    return Raw(res)
def one(f):
    return lambda E, st, v: [(st, f(v))]

def payload(v, var, i=0, ):
    if v[0] == "agg": return v[4][i]
    if v[0] == "upd":
        for s, x in v[2]:
            if s == ("f", var, i): return x
        return payload(v[1], var, i)
    return ("fld", v, var, i)
def pointee(E, st, r):
    cell, path = E.deref(r)
    return E.read(st, cell, path)
def refto(E, st, r, *steps):
    """reference to a projection of what r points at"""
    cell, path = E.deref(r)
    return ("ref", cell, path + tuple(steps))

def split(E, st, v, adt):
    return E.variants(st, v, adt)

# ------------------------------------------------------------------ Option / Result
@model(*O("is_some"))
def _(E, st, c, r): return var_is(E, st, pointee(E, st, r), OPT, 1)
@model(*O("is_none"))
def _(E, st, c, r): return var_is(E, st, pointee(E, st, r), OPT, 0)
@model(*R("is_ok"))
def _(E, st, c, r): return var_is(E, st, pointee(E, st, r), RES, 0)
@model(*R("is_err"))
def _(E, st, c, r): return var_is(E, st, pointee(E, st, r), RES, 1)
def var_is(E, st, v, adt, i):
    return [(s, I(1 if k == i else 0)) for s, k in split(E, st, v, adt)]

@model(*O("is_some_and"))
def _(E, st, c, v, f):
    return outs(E, c, [(s, FALSE if k == 0 else ["apply", f, [payload(v, 1)], one(lambda x: x)]) for s, k in split(E, st, v, OPT)])
@model(*O("is_none_or"))
def _(E, st, c, v, f):
    return outs(E, c, [(s, TRUE if k == 0 else ["apply", f, [payload(v, 1)], one(lambda x: x)]) for s, k in split(E, st, v, OPT)])
@model(*R("is_ok_and"))
def _(E, st, c, v, f):
    return outs(E, c, [(s, FALSE if k == 1 else ["apply", f, [payload(v, 0)], one(lambda x: x)]) for s, k in split(E, st, v, RES)])
@model(*R("is_err_and"))
def _(E, st, c, v, f):
    return outs(E, c, [(s, FALSE if k == 0 else ["apply", f, [payload(v, 1)], one(lambda x: x)]) for s, k in split(E, st, v, RES)])
@model(*O("map"))
def _(E, st, c, v, f):
    return outs(E, c, [(s, NONE if k == 0 else ["apply", f, [payload(v, 1)], one(some)]) for s, k in split(E, st, v, OPT)])
@model(*O("and_then"))
def _(E, st, c, v, f):
    return outs(E, c, [(s, NONE if k == 0 else ["apply", f, [payload(v, 1)], one(lambda x: x)]) for s, k in split(E, st, v, OPT)])
@model(*O("map_or"))
def _(E, st, c, v, d, f):
    return outs(E, c, [(s, d if k == 0 else ["apply", f, [payload(v, 1)], one(lambda x: x)]) for s, k in split(E, st, v, OPT)])
@model(*O("map_or_else"))
def _(E, st, c, v, d, f):
    return outs(E, c, [(s, ["apply", d, [], one(lambda x: x)] if k == 0 else ["apply", f, [payload(v, 1)], one(lambda x: x)]) for s, k in split(E, st, v, OPT)])
@model(*O("filter"))
def _(E, st, c, v, f):
    br = []
    for s, k in split(E, st, v, OPT):
        if k == 0: br.append((s, NONE)); continue
        cell = ("heap", s.fresh()); s.mem[cell] = payload(v, 1)
        def cont(E, st, r, v=v):
            return [(x, some(payload(v, 1)) if b else NONE) for x, b in boolsplit(E, st, r)]
        br.append((s, ["apply", f, [("ref", cell, ())], cont]))
    return outs(E, c, br)
def boolsplit(E, st, t):
    d = E.decide(st, t)
    if d is not None: return [(st, d)]
    s2 = st.fork()
    for s in (st, s2):
        for f in s.frames: f.nondet = True
    E.assume(st, t, 1); E.assume(s2, t, 0)
    res = []
    for s, b in ((st, 1), (s2, 0)):
        if s.lin and E.contradiction(s, t, b): continue
        res.append((s, b))
    return res
@model(*O("ok_or"))
def _(E, st, c, v, e):
    return [(s, err(e) if k == 0 else ok(payload(v, 1))) for s, k in split(E, st, v, OPT)]
@model(*O("ok_or_else"))
def _(E, st, c, v, f):
    return outs(E, c, [(s, ["apply", f, [], one(err)] if k == 0 else ok(payload(v, 1))) for s, k in split(E, st, v, OPT)])
@model(*O("or"))
def _(E, st, c, v, o):
    return [(s, o if k == 0 else v) for s, k in split(E, st, v, OPT)]
@model(*O("or_else"))
def _(E, st, c, v, f):
    return outs(E, c, [(s, ["apply", f, [], one(lambda x: x)] if k == 0 else v) for s, k in split(E, st, v, OPT)])
@model(*O("unwrap_or"))
def _(E, st, c, v, d):
    return [(s, d if k == 0 else payload(v, 1)) for s, k in split(E, st, v, OPT)]
@model(*O("unwrap_or_else"))
def _(E, st, c, v, f):
    return outs(E, c, [(s, ["apply", f, [], one(lambda x: x)] if k == 0 else payload(v, 1)) for s, k in split(E, st, v, OPT)])
@model(*O("unwrap_or_default"))
def _(E, st, c, v):
    return [(s, ("call", "core::default::Default::default", c.gargs[0] if c.gargs else "") if k == 0 else payload(v, 1)) for s, k in split(E, st, v, OPT)]
@model(*(O("unwrap", "expect")))
def _(E, st, c, v, *a):
    r = []
    for s, k in split(E, st, v, OPT):
        if k == 0: r.append((panic(E, s, c, "unwrap of None"), UNIT))
        else: r.append((s, payload(v, 1)))
    return r
@model(*(R("unwrap", "expect")))
def _(E, st, c, v, *a):
    r = []
    for s, k in split(E, st, v, RES):
        if k == 1: r.append((panic(E, s, c, "unwrap of Err"), UNIT))
        else: r.append((s, payload(v, 0)))
    return r
@model(*(R("unwrap_err", "expect_err")))
def _(E, st, c, v, *a):
    r = []
    for s, k in split(E, st, v, RES):
        if k == 0: r.append((panic(E, s, c, "unwrap_err of Ok"), UNIT))
        else: r.append((s, payload(v, 1)))
    return r
def panic(E, st, c, what):
    from engine import Ev
    st.trace.append(Ev("panic", what, fn=c.fr.fn.key, line=c.line, file=c.file, stack=tuple(f.fn.key for f in st.frames)))
    E.finish(st, "panic", note=what)
    return st
@model(*O("as_ref", "as_mut", "as_deref", "as_deref_mut"))
def _(E, st, c, r):
    v = pointee(E, st, r)
    res = []
    for s, k in split(E, st, v, OPT):
        if k == 0: res.append((s, NONE)); continue
        x = refto(E, s, r, ("f", 1, 0))
        if "deref" in c.cid: x = do_deref(E, s, x, None)
        res.append((s, some(x)))
    return res
@model(*R("as_ref", "as_mut"))
def _(E, st, c, r):
    v = pointee(E, st, r)
    return [(s, (ok if k == 0 else err)(refto(E, s, r, ("f", k, 0)))) for s, k in split(E, st, v, RES)]
@model(*O("take"))
def _(E, st, c, r):
    v = pointee(E, st, r)
    cell, path = E.deref(r)
    E.write(st, cell, path, NONE, c.fr, c.line)
    return v
@model(*O("replace"))
def _(E, st, c, r, x):
    v = pointee(E, st, r)
    cell, path = E.deref(r)
    E.write(st, cell, path, some(x), c.fr, c.line)
    return v
@model(*O("insert"))
def _(E, st, c, r, x):
    cell, path = E.deref(r)
    E.write(st, cell, path, some(x), c.fr, c.line)
    return ("ref", cell, path + (("f", 1, 0),))
def slot(E, s, r): cell, path = E.deref(r); return ("ref", cell, path + (("f", 1, 0),))
@model(*O("get_or_insert"))
def _(E, st, c, r, x):
    v = pointee(E, st, r); res = []
    for s, k in split(E, st, v, OPT):
        if k == 0:
            cell, path = E.deref(r); E.write(s, cell, path, some(x), c.fr, c.line)
        res.append((s, refto(E, s, r, ("f", 1, 0)) if k else slot(E, s, r)))
    return res
@model(*O("get_or_insert_with"))
def _(E, st, c, r, f):
    v = pointee(E, st, r); res = []
    def put(E, s, x):
        cell, path = E.deref(r); E.write(s, cell, path, some(x), c.fr, c.line)
        return [(s, slot(E, s, r))]
    for s, k in split(E, st, v, OPT):
        res.append((s, refto(E, s, r, ("f", 1, 0)) if k else ["apply", f, [], put]))
    return outs(E, c, res)
@model(*O("copied", "cloned"))
def _(E, st, c, v):
    return [(s, NONE if k == 0 else some(pointee(E, s, payload(v, 1)))) for s, k in split(E, st, v, OPT)]
@model(*O("and"))
def _(E, st, c, v, o):
    return [(s, NONE if k == 0 else o) for s, k in split(E, st, v, OPT)]
@model(*O("xor"))
def _(E, st, c, v, o): raise NoModel
@model(*O("zip"))
def _(E, st, c, v, o):
    r = []
    for s, k in split(E, st, v, OPT):
        if k == 0: r.append((s, NONE)); continue
        for s2, k2 in split(E, s, o, OPT):
            r.append((s2, NONE if k2 == 0 else some(tup(payload(v, 1), payload(o, 1)))))
    return r
@model(*R("map"))
def _(E, st, c, v, f):
    return outs(E, c, [(s, err(payload(v, 1)) if k == 1 else ["apply", f, [payload(v, 0)], one(ok)]) for s, k in split(E, st, v, RES)])
@model(*R("map_err"))
def _(E, st, c, v, f):
    return outs(E, c, [(s, ok(payload(v, 0)) if k == 0 else ["apply", f, [payload(v, 1)], one(err)]) for s, k in split(E, st, v, RES)])
@model(*R("and_then"))
def _(E, st, c, v, f):
    return outs(E, c, [(s, err(payload(v, 1)) if k == 1 else ["apply", f, [payload(v, 0)], one(lambda x: x)]) for s, k in split(E, st, v, RES)])
@model(*R("or_else"))
def _(E, st, c, v, f):
    return outs(E, c, [(s, ok(payload(v, 0)) if k == 0 else ["apply", f, [payload(v, 1)], one(lambda x: x)]) for s, k in split(E, st, v, RES)])
@model(*R("map_or"))
def _(E, st, c, v, d, f):
    return outs(E, c, [(s, d if k == 1 else ["apply", f, [payload(v, 0)], one(lambda x: x)]) for s, k in split(E, st, v, RES)])
@model(*R("map_or_else"))
def _(E, st, c, v, d, f):
    return outs(E, c, [(s, ["apply", d, [payload(v, 1)], one(lambda x: x)] if k == 1 else ["apply", f, [payload(v, 0)], one(lambda x: x)]) for s, k in split(E, st, v, RES)])
@model(*R("ok"))
def _(E, st, c, v):
    return [(s, some(payload(v, 0)) if k == 0 else NONE) for s, k in split(E, st, v, RES)]
@model(*R("err"))
def _(E, st, c, v):
    return [(s, some(payload(v, 1)) if k == 1 else NONE) for s, k in split(E, st, v, RES)]
@model(*R("unwrap_or"))
def _(E, st, c, v, d):
    return [(s, d if k == 1 else payload(v, 0)) for s, k in split(E, st, v, RES)]
@model(*R("unwrap_or_else"))
def _(E, st, c, v, f):
    return outs(E, c, [(s, ["apply", f, [payload(v, 1)], one(lambda x: x)] if k == 1 else payload(v, 0)) for s, k in split(E, st, v, RES)])
@model(*R("unwrap_or_default"))
def _(E, st, c, v):
    return [(s, ("call", "core::default::Default::default", "") if k == 1 else payload(v, 0)) for s, k in split(E, st, v, RES)]
@model(*R("and"))
def _(E, st, c, v, o):
    return [(s, err(payload(v, 1)) if k == 1 else o) for s, k in split(E, st, v, RES)]
@model(*R("or"))
def _(E, st, c, v, o):
    return [(s, o if k == 1 else ok(payload(v, 0))) for s, k in split(E, st, v, RES)]
@model(*R("copied", "cloned"))
def _(E, st, c, v):
    return [(s, err(payload(v, 1)) if k == 1 else ok(pointee(E, s, payload(v, 0)))) for s, k in split(E, st, v, RES)]

# ------------------------------------------------------------------ `?`
def cf(i, v): return ("agg", "adt", CF, i, (v,))      # 0 Continue, 1 Break
@model("core::ops::try_trait::Try::branch")
def _(E, st, c, v):
    t = c.self
    if t.startswith(RES):
        return [(s, cf(0, payload(v, 0)) if k == 0 else cf(1, err(payload(v, 1)))) for s, k in split(E, st, v, RES)]
    if t.startswith(OPT):
        return [(s, cf(0, payload(v, 1)) if k == 1 else cf(1, NONE)) for s, k in split(E, st, v, OPT)]
    raise NoModel
@model("core::ops::try_trait::Try::from_output")
def _(E, st, c, v):
    return ok(v) if c.self.startswith(RES) else some(v)
@model("core::ops::try_trait::FromResidual::from_residual")
def _(E, st, c, v):
    from engine import split_args
    if c.self.startswith(OPT): return NONE
    if c.self.startswith(RES):
        to = split_args(c.self)[1:]
        frm = split_args(c.gargs[1])[1:] if len(c.gargs) > 1 else []
        e = payload(v, 1)
        if to == frm or not frm: return err(e)
        r = E.reresolve("core::convert::From", "from", to[0], [to[0], frm[0]])
        if r:
            fn = E.p.fns[r[0]]
            E.call_frame(st, fn, [e], c.dest, c.tgt, E.subst_for(*r), ("wrap", lambda E, st, v: err(v)))
            return "pushed"
        return err(("call", "core::convert::From::from", to[0], e))
    raise NoModel

# ------------------------------------------------------------------ conversions, identity-like
@model("core::convert::Into::into")
def _(E, st, c, v):
    to = c.gargs[1]; frm = c.gargs[0]
    if c.ikey in E.p.fns: raise NoModel
    if to == frm: return v
    r = E.reresolve("core::convert::Into", "into", frm, [frm, to])
    if r:
        E.call_frame(st, E.p.fns[r[0]], [v], c.dest, c.tgt, E.subst_for(*r)); return "pushed"
    r = E.reresolve("core::convert::From", "from", to, [to, frm])
    if r:
        E.call_frame(st, E.p.fns[r[0]], [v], c.dest, c.tgt, E.subst_for(*r)); return "pushed"
    if to in E.WIDTH and frm in E.WIDTH: return v
    return ("call", "core::convert::From::from", to, E.deep(st, v))
@model("core::convert::From::from")
def _(E, st, c, v):
    if c.ikey in E.p.fns: raise NoModel
    if c.self in E.WIDTH and len(c.gargs) > 1 and c.gargs[1] in E.WIDTH: return v
    if len(c.gargs) > 1 and c.gargs[0] == c.gargs[1]: return v
    if c.self.startswith("alloc::vec::Vec") : return content(E, st, v) if v[0] in ("ref", "slice", "&", "arg") else v
    return ("call", "core::convert::From::from", c.self, E.deep(st, v))
@model("core::convert::TryInto::try_into", "core::convert::TryFrom::try_from")
def _(E, st, c, v):
    if c.ikey in E.p.fns: raise NoModel
    into = c.cid.endswith("try_into")
    to = c.gargs[1] if into else c.gargs[0]; frm = c.gargs[0] if into else c.gargs[1]
    m = re.match(r"^\[(\w+); (\d+)\]$", to)
    if m and frm.lstrip("&").replace("mut ", "").startswith("["):
        n = int(m.group(2))
        x = content(E, st, v)
        r = []
        for s, b in boolsplit(E, st, Eq(E.clen(x), I(n))):
            r.append((s, ok(("agg", "array", None, 0, tuple(E.elem(x, I(i)) for i in range(n)))) if b else err(("sym", "TryFromSliceError"))))
        return r
    if to in E.WIDTH and frm in E.WIDTH:
        tw, fw = E.WIDTH[to], E.WIDTH[frm]
        if tw >= fw and to[0] == frm[0]: return ok(v)
        r = []
        for s, b in boolsplit(E, st, Le(v, I((1 << tw) - 1))):
            r.append((s, ok(v) if b else err(("sym", "TryFromIntError"))))
        return r
    if into:
        rr = E.reresolve("core::convert::TryFrom", "try_from", to, [to, frm])
        if rr:
            E.call_frame(st, E.p.fns[rr[0]], [v], c.dest, c.tgt, E.subst_for(*rr)); return "pushed"
    raise NoModel

@model("core::clone::Clone::clone", "alloc::borrow::ToOwned::to_owned")
def _(E, st, c, r):
    fn = E.p.fns.get(c.ikey)
    if fn is not None:
        base = c.self.split("<")[0]
        # derived clones of plain data copy the value; anything hand-written is analysed
        if fn.d.get("mfile") and is_derived(E, fn): return pointee(E, st, r)
        raise NoModel
    return pointee(E, st, r)
def is_derived(E, fn):
    return False
@model("core::borrow::Borrow::borrow", "core::borrow::BorrowMut::borrow_mut", "core::convert::AsRef::as_ref", "core::convert::AsMut::as_mut")
def _(E, st, c, r):
    if c.ikey in E.p.fns: raise NoModel
    v = pointee(E, st, r)
    return do_deref(E, st, r, c)
@model("core::hint::must_use", "core::convert::identity", "core::hint::black_box")
def _(E, st, c, v): return v
@model("core::mem::replace")
def _(E, st, c, r, v):
    old = pointee(E, st, r); cell, path = E.deref(r)
    E.write(st, cell, path, v, c.fr, c.line); return old
@model("core::mem::take")
def _(E, st, c, r):
    old = pointee(E, st, r); cell, path = E.deref(r)
    t = c.gargs[0] if c.gargs else ""
    if t.startswith(OPT): d = NONE
    elif t.startswith("&"): d = ("&", ("agg", "array", None, 0, ()))
    elif t.startswith("alloc::vec::Vec"): d = ("cat",)
    elif t in E.WIDTH: d = I(0)
    else: d = ("call", "core::default::Default::default", t)
    E.write(st, cell, path, d, c.fr, c.line); return old
@model("core::mem::swap")
def _(E, st, c, a, b):
    x = pointee(E, st, a); y = pointee(E, st, b)
    E.write(st, *E.deref(a), y, c.fr, c.line); E.write(st, *E.deref(b), x, c.fr, c.line); return UNIT
@model("core::mem::size_of", "core::intrinsics::size_of")
def _(E, st, c):
    sz = {"u8": 1, "i8": 1, "bool": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "f32": 4, "char": 4, "u64": 8, "i64": 8, "f64": 8, "u128": 16, "i128": 16, "usize": E.ptr, "isize": E.ptr, "()": 0}
    g = c.gargs[0] if c.gargs else ""
    if g not in sz: raise NoModel
    return I(sz[g])
@model("core::mem::drop")
def _(E, st, c, v):
    from engine import Ev
    st.trace.append(Ev("drop", c.gargs[0] if c.gargs else "", args=(E.deep(st, v),), fn=c.fr.fn.key, line=c.line, file=c.file, stack=tuple(f.fn.key for f in st.frames)))
    return UNIT
@model("core::mem::forget")
def _(E, st, c, v): return UNIT

@model("core::ops::deref::Deref::deref", "core::ops::deref::DerefMut::deref_mut")
def _(E, st, c, r):
    if c.ikey in E.p.fns: raise NoModel
    return do_deref(E, st, r, c)
def do_deref(E, st, r, c):
    v = pointee(E, st, r)
    if v[0] in ("cat", "str", "bytes") or (c is not None and re.match(r"^(&(mut )?)?(alloc::(vec::Vec|string::String)|heapless::)", c.self)):
        cell, path = E.deref(r)
        if v[0] == "&": return v
        return ("slice", cell, path, I(0), E.clen(v))
    if v[0] == "ref" or v[0] == "slice": return v       # &T, Box modelled as reference
    if v[0] == "&": return v
    if v[0] == "agg" and v[1] == "adt" and v[2].endswith("pin::Pin"): return v[4][0]
    if v[0] == "boxed": return v[1]
    return ("call", "deref", "", v)
@model("core::pin::Pin::new_unchecked", "core::pin::Pin::new")
def _(E, st, c, v): return ("agg", "adt", "core::pin::Pin", 0, (v,))
@model("core::pin::Pin::as_mut", "core::pin::Pin::as_ref", "core::pin::Pin::get_mut", "core::pin::Pin::into_inner", "core::pin::Pin::get_unchecked_mut")
def _(E, st, c, v):
    v2 = E.unpin(st, pointee(E, st, v) if v[0] == "ref" else v)
    if c.cid.endswith(("as_mut", "as_ref")): return ("agg", "adt", "core::pin::Pin", 0, (v2,))
    return v2
@model("alloc::boxed::Box::new", "alloc::boxed::Box::pin")
def _(E, st, c, v):
    cell = ("heap", st.fresh()); st.mem[cell] = v
    r = ("ref", cell, ())
    return ("agg", "adt", "core::pin::Pin", 0, (r,)) if c.cid.endswith("pin") else r
@model("alloc::sync::Arc::new")
def _(E, st, c, v): return ("call", "Arc::new", "", E.deep(st, v))
@model("core::future::into_future::IntoFuture::into_future")
def _(E, st, c, v): return v
@model("core::future::get_context")
def _(E, st, c, v): return ("sym", "cx")
@model("core::future::poll_fn::poll_fn")
def _(E, st, c, v): return ("agg", "pollfn", None, 0, (v,))
@model("core::future::ready::ready")
def _(E, st, c, v): return ("agg", "readyfut", None, 0, (v,))
@model("core::future::pending::pending")
def _(E, st, c): return ("agg", "pendingfut", None, 0, ())

# ------------------------------------------------------------------ comparison
@model("core::cmp::PartialEq::eq", "core::cmp::PartialEq::ne")
def _(E, st, c, a, b):
    if c.cid.endswith("ne"):
        r = E.reresolve("core::cmp::PartialEq", "eq", c.self, list(c.gargs))
        if r:
            E.call_frame(st, E.p.fns[r[0]], [a, b], c.dest, c.tgt, E.subst_for(*r), ("wrap", lambda E, st, v: Not(v)))
            return "pushed"
    elif c.ikey in E.p.fns: raise NoModel
    x, y = E.deep(st, a), E.deep(st, b)
    x, y = strip(x), strip(y)
    v = enum_eq(E, st, c, x, y)
    if v is not None: 
        if c.cid.endswith("ne"): return [(s, Not(t)) for s, t in v]
        return v
    t = arr_eq(E, x, y)
    return Not(t) if c.cid.endswith("ne") else t
def strip(x):
    while x[0] == "&": x = x[1]
    return x
def enum_eq(E, st, c, x, y):
    """Option/Result equality: by variant"""
    t = c.self.lstrip("&")
    if not t.startswith((OPT + "<", RES + "<")): return None
    adt = OPT if t.startswith(OPT) else RES
    r = []
    for s, k in split(E, st, x, adt):
        for s2, k2 in split(E, s, y, adt):
            if k != k2: r.append((s2, FALSE))
            elif adt == OPT and k == 0: r.append((s2, TRUE))
            else: r.append((s2, arr_eq(E, strip(payload(x, k)), strip(payload(y, k)))))
    return r
def arr_eq(E, x, y):
    if x == y: return TRUE
    if x[0] == y[0] == "agg" and x[1] == y[1] == "tuple" and len(x[4]) == len(y[4]):
        r = TRUE
        for a, b in zip(x[4], y[4]): r = And(r, arr_eq(E, strip(a), strip(b)))
        return r
    lx, ly = None, None
    if x[0] in ("agg",) and x[1] == "array": lx = len(x[4])
    if y[0] in ("agg",) and y[1] == "array": ly = len(y[4])
    if lx is not None or ly is not None:
        n = lx if lx is not None else ly
        if n <= 16 and (lx == ly or x[0] in ("fld", "deref", "bytes", "arg", "call") or y[0] in ("fld", "deref", "bytes", "arg", "call")):
            xs = [E.elem(x, I(i)) for i in range(n)]; ys = [E.elem(y, I(i)) for i in range(n)]
            r = TRUE
            for a, b in zip(xs, ys): r = And(r, Eq(a, b))
            return r
    return Eq(x, y)
@model("core::cmp::Ord::min", "core::cmp::min")
def _(E, st, c, a, b):
    if is_int(a) and is_int(b): return I(min(a[1], b[1]))
    if a == b: return a
    return [(s, a if k else b) for s, k in boolsplit(E, st, Le(a, b))]
@model("core::cmp::Ord::max", "core::cmp::max")
def _(E, st, c, a, b):
    if is_int(a) and is_int(b): return I(max(a[1], b[1]))
    return [(s, b if k else a) for s, k in boolsplit(E, st, Le(a, b))]
@model("core::cmp::Ord::clamp")
def _(E, st, c, v, lo, hi):
    if is_int(v) and is_int(lo) and is_int(hi): return I(max(lo[1], min(hi[1], v[1])))
    r = []
    for s, k in boolsplit(E, st, Lt(v, lo)):
        if k: r.append((s, lo)); continue
        for s2, k2 in boolsplit(E, s, Lt(hi, v)): r.append((s2, hi if k2 else v))
    return r
@model("core::cmp::PartialOrd::lt", "core::cmp::PartialOrd::le", "core::cmp::PartialOrd::gt", "core::cmp::PartialOrd::ge")
def _(E, st, c, a, b):
    if c.self.startswith("tracing"): return FALSE      # logging switched off: it does not take part in the behaviour
    if c.ikey in E.p.fns: raise NoModel
    x, y = strip(E.deep(st, a)), strip(E.deep(st, b))
    k = c.cid[-2:]
    if k == "lt": return Lt(x, y)
    if k == "gt": return Lt(y, x)
    if k == "le": return Le(x, y)
    return Le(y, x)

# ------------------------------------------------------------------ integers
INTS = ["u8", "u16", "u32", "u64", "usize", "u128", "i8", "i16", "i32", "i64", "isize"]
def intm(*names): return [t + "::" + n for t in INTS for n in names]
def ity(c): return c.cid.split("::")[0]
def byte(x, i):
    if is_int(x): return I((x[1] >> (8 * i)) & 255)
    if x[0] == "op" and x[1] == "trunc":
        if i * 8 < x[3][1]: return byte(x[2], i)
        return I(0)
    if x[0] == "le": return x[1][i] if i < len(x[1]) else I(0)
    if x[0] == "op" and x[1] == "Rem" and is_int(x[3]):
        n = x[3][1]
        for w in (8, 16, 32):
            if n == 1 << w: return byte(x[2], i) if i * 8 < w else I(0)
    if x[0] == "op" and x[1] == "Div" and is_int(x[3]):
        for w in (8, 16, 24, 32, 40, 48, 56):
            if x[3][1] == 1 << w: return byte(x[2], i + w // 8)
    if x[0] == "op" and x[1] == "shlw" and is_int(x[3]) and x[3][1] % 8 == 0:
        k = x[3][1] // 8
        return I(0) if i < k else byte(x[2], i - k)
    if x[0] in ("op",) and x[1] == "BitOr" or x[0] == "xor":
        parts = [byte(y, i) for y in (x[2:] if x[0] == "op" else x[2] + (I(x[1]),))]
        parts = [y for y in parts if y != I(0)]
        if not parts: return I(0)
        if len(parts) == 1: return parts[0]
    if x[0] == "lob": return byte(x[1], i) if i < x[2] else I(0)
    if x[0] == "byte" or x[0] == "elem": return x if i == 0 else I(0)
    return ("byte", x, i)
def canonbyte(x):
    """canonical form of a term of type u8"""
    if x[0] == "op" and x[1] in ("trunc", "Rem", "BitOr", "Div", "shlw") or x[0] in ("lob", "le"): return byte(x, 0)
    return x
def le(bs):
    bs = tuple(bs)
    if all(is_int(b) for b in bs): return I(sum(b[1] << (8 * i) for i, b in enumerate(bs)))
    if len(bs) == 1: return bs[0]
    if all(b[0] == "byte" and b[2] == i for i, b in enumerate(bs)) and len({b[1] for b in bs}) == 1:
        x = bs[0][1]
        return ("lob", x, len(bs))          # low bytes of x; equals x when x has that width
    return ("le", bs)
@model(*intm("to_le_bytes", "to_be_bytes", "to_ne_bytes"))
def _(E, st, c, v):
    n = E.WIDTH[ity(c)] // 8
    if n == 1: bs = [v if not is_int(v) else v]
    else: bs = [byte(v, i) for i in range(n)]
    if c.cid.endswith("to_be_bytes"): bs = bs[::-1]
    return ("agg", "array", None, 0, tuple(bs))
@model(*intm("from_le_bytes", "from_be_bytes", "from_ne_bytes"))
def _(E, st, c, v):
    n = E.WIDTH[ity(c)] // 8
    bs = [E.elem(v, I(i)) for i in range(n)]
    if c.cid.endswith("from_be_bytes"): bs = bs[::-1]
    return le(bs)
@model(*intm("saturating_sub"))
def _(E, st, c, a, b):
    if is_int(a) and is_int(b): return I(max(0, a[1] - b[1]))
    return [(s, sub(a, b) if k else I(0)) for s, k in boolsplit(E, st, Le(b, a))]
@model(*intm("saturating_add"))
def _(E, st, c, a, b): return add(a, b)
@model(*intm("checked_sub"))
def _(E, st, c, a, b):
    return [(s, some(sub(a, b)) if k else NONE) for s, k in boolsplit(E, st, Le(b, a))]
@model(*intm("checked_add"))
def _(E, st, c, a, b):
    s2 = st.fork()
    for s in (st, s2): s.frames[-1].nondet = True
    E.assume(s2, ("op", "ovf", "Add", a, b, ity(c)), 1)
    return [(st, some(add(a, b))), (s2, NONE)]
@model(*intm("checked_mul"))
def _(E, st, c, a, b):
    s2 = st.fork()
    for s in (st, s2): s.frames[-1].nondet = True
    return [(st, some(E.binop("Mul", a, b, ity(c)))), (s2, NONE)]
@model(*intm("wrapping_add"))
def _(E, st, c, a, b):
    w = E.WIDTH[ity(c)]
    if is_int(a) and is_int(b): return I((a[1] + b[1]) & ((1 << w) - 1))
    return ("op", "wadd", a, b, I(w))
@model(*intm("wrapping_sub"))
def _(E, st, c, a, b):
    w = E.WIDTH[ity(c)]
    if is_int(a) and is_int(b): return I((a[1] - b[1]) & ((1 << w) - 1))
    return ("op", "wsub", a, b, I(w))
@model(*intm("is_multiple_of"))
def _(E, st, c, a, b):
    if is_int(b): return Eq(a, I(0)) if b[1] == 0 else Eq(E.rem(a, b[1]), I(0))
    return Eq(op("Rem", a, b), I(0))
@model(*intm("div_ceil"))
def _(E, st, c, a, b):
    if is_int(a) and is_int(b) and b[1]: return I(-(-a[1] // b[1]))
    return op("divceil", a, b)
@model(*intm("rem_euclid"))
def _(E, st, c, a, b):
    if is_int(b) and b[1]: return E.rem(a, b[1])
    raise NoModel
@model(*intm("abs_diff"))
def _(E, st, c, a, b):
    return [(s, sub(a, b) if k else sub(b, a)) for s, k in boolsplit(E, st, Le(b, a))]
@model(*intm("swap_bytes"))
def _(E, st, c, a):
    n = E.WIDTH[ity(c)] // 8
    return le([byte(a, n - 1 - i) for i in range(n)])
@model("bool::then")
def _(E, st, c, b, f):
    return outs(E, c, [(s, ["apply", f, [], one(some)] if k else NONE) for s, k in boolsplit(E, st, b)])
@model("bool::then_some")
def _(E, st, c, b, v):
    return [(s, some(v) if k else NONE) for s, k in boolsplit(E, st, b)]

# ------------------------------------------------------------------ slices, arrays, vectors
def view(E, st, v):
    """(cell, path, lo, len) of a slice-like reference"""
    if v[0] == "slice": return v[1:]
    cell, path = E.deref(v)
    if path and path[-1][0] == "sl": return cell, path[:-1], path[-1][1], path[-1][2]
    x = E.read(st, cell, path)
    if x[0] in ("ref", "slice"): return view(E, st, x)
    if x[0] == "&": return ("ext", x), (), I(0), E.clen(x[1])
    return cell, path, I(0), E.clen(x)
def content(E, st, v):
    cell, path, lo, ln = view(E, st, v)
    return E.subc(E.read(st, cell, path), lo, ln)
def mk(vw, lo, ln):
    cell, path, l0, _ = vw
    return ("slice", cell, path, add(l0, lo), ln)
def elref(vw, i):
    cell, path, lo, _ = vw
    return ("ref", cell, path + (("i", add(lo, i)),))

@model(*S("len"), V + "len", "alloc::string::String::len", "str::len", "heapless::vec::VecInner::len")
def _(E, st, c, r): return view(E, st, r)[3]
@model(*S("is_empty"), V + "is_empty", "str::is_empty", "alloc::string::String::is_empty")
def _(E, st, c, r): return Eq(view(E, st, r)[3], I(0))
@model("str::as_bytes", V + "as_slice", V + "as_mut_slice", "[T;N]::as_slice", "[T;N]::as_mut_slice", "alloc::string::String::as_bytes", "alloc::string::String::as_str")
def _(E, st, c, r):
    if r[0] == "&": return r
    return mk(view(E, st, r), I(0), view(E, st, r)[3])
@model(*S("as_ptr"))
def _(E, st, c, r): return ("call", "as_ptr", "", E.deep(st, r))

def rng(E, st, c, vw, idx):
    """(lo, hi, ok condition) of an index value, or None"""
    ln = vw[3]
    if idx[0] == "agg" and idx[1] == "adt":
        n = idx[2].split("::")[-1]
        if n == "Range": lo, hi = idx[4]; return lo, hi, And(Le(lo, hi), Le(hi, ln))
        if n == "RangeTo": hi, = idx[4]; return I(0), hi, Le(hi, ln)
        if n == "RangeFrom": lo, = idx[4]; return lo, ln, Le(lo, ln)
        if n == "RangeFull": return I(0), ln, TRUE
        if n == "RangeInclusive": lo, hi = idx[4][0], add(idx[4][1], I(1)); return lo, hi, And(Le(lo, hi), Le(hi, ln))
        if n == "RangeToInclusive": hi = add(idx[4][0], I(1)); return I(0), hi, Le(hi, ln)
    return None
@model("core::ops::index::Index::index", "core::ops::index::IndexMut::index_mut")
def _(E, st, c, r, idx):
    if c.ikey in E.p.fns: raise NoModel
    if not re.match(r"^(\[|alloc::vec::Vec|alloc::string|str$|heapless)", c.self): raise NoModel
    vw = view(E, st, r)
    x = rng(E, st, c, vw, idx)
    if x is None:
        if idx[0] == "agg": raise NoModel
        if not E.require(st, c, Lt(idx, vw[3]), "index"): return [(st, UNIT)]
        return elref(vw, idx)
    lo, hi, cond = x
    if not E.require(st, c, cond, "slice"): return [(st, UNIT)]
    return mk(vw, lo, sub(hi, lo))
@model(*S("get", "get_mut"), V + "get", V + "get_mut")
def _(E, st, c, r, idx):
    vw = view(E, st, r)
    x = rng(E, st, c, vw, idx)
    if x is None:
        if idx[0] == "agg": raise NoModel
        return [(s, some(elref(vw, idx)) if k else NONE) for s, k in boolsplit(E, st, Lt(idx, vw[3]))]
    lo, hi, cond = x
    return [(s, some(mk(vw, lo, sub(hi, lo))) if k else NONE) for s, k in boolsplit(E, st, cond)]
@model(*S("split_at", "split_at_mut"))
def _(E, st, c, r, n):
    vw = view(E, st, r)
    if not E.require(st, c, Le(n, vw[3]), "split_at"): return [(st, UNIT)]
    return tup(mk(vw, I(0), n), mk(vw, n, sub(vw[3], n)))
@model(*S("split_at_checked", "split_at_mut_checked"))
def _(E, st, c, r, n):
    vw = view(E, st, r)
    return [(s, some(tup(mk(vw, I(0), n), mk(vw, n, sub(vw[3], n)))) if k else NONE) for s, k in boolsplit(E, st, Le(n, vw[3]))]
@model(*S("split_first", "split_first_mut"))
def _(E, st, c, r):
    vw = view(E, st, r)
    return [(s, some(tup(elref(vw, I(0)), mk(vw, I(1), sub(vw[3], I(1))))) if k else NONE) for s, k in boolsplit(E, st, Lt(I(0), vw[3]))]
@model(*S("split_last", "split_last_mut"))
def _(E, st, c, r):
    vw = view(E, st, r)
    l1 = sub(vw[3], I(1))
    return [(s, some(tup(elref(vw, l1), mk(vw, I(0), l1))) if k else NONE) for s, k in boolsplit(E, st, Lt(I(0), vw[3]))]
@model(*S("first", "first_mut"), V + "first")
def _(E, st, c, r):
    vw = view(E, st, r)
    return [(s, some(elref(vw, I(0))) if k else NONE) for s, k in boolsplit(E, st, Lt(I(0), vw[3]))]
@model(*S("last", "last_mut"))
def _(E, st, c, r):
    vw = view(E, st, r)
    return [(s, some(elref(vw, sub(vw[3], I(1)))) if k else NONE) for s, k in boolsplit(E, st, Lt(I(0), vw[3]))]
@model(*S("first_chunk", "split_first_chunk"))
def _(E, st, c, r):
    vw = view(E, st, r)
    try: n = int(c.gargs[-1])
    except ValueError: raise NoModel
    res = []
    for s, k in boolsplit(E, st, Le(I(n), vw[3])):
        a = mk(vw, I(0), I(n))
        res.append((s, (some(a) if c.cid.endswith("first_chunk") and "split" not in c.cid else some(tup(a, mk(vw, I(n), sub(vw[3], I(n)))))) if k else NONE))
    return res
@model(*S("copy_from_slice", "clone_from_slice"))
def _(E, st, c, d, s):
    vd, vs = view(E, st, d), view(E, st, s)
    if not E.require(st, c, Eq(vd[3], vs[3]), "copy_from_slice"): return [(st, UNIT)]
    x = content(E, st, s)
    put(E, st, c, vd, x)
    return UNIT
def put(E, st, c, vw, x):
    cell, path, lo, ln = vw
    base = E.read(st, cell, path)
    E.write(st, cell, path, E.wr(base, lo, ln, x), c.fr if cell[0] == "ext" else None, c.line)
@model(*S("fill"))
def _(E, st, c, d, v):
    vd = view(E, st, d)
    put(E, st, c, vd, ("rep", v, vd[3])); return UNIT
@model(*S("copy_within"))
def _(E, st, c, d, idx, dst):
    vw = view(E, st, d)
    x = rng(E, st, c, vw, idx)
    if x is None: raise NoModel
    lo, hi, cond = x
    if not E.require(st, c, cond, "slice"): return [(st, UNIT)]
    if not E.require(st, c, Le(add(dst, sub(hi, lo)), vw[3]), "copy_within"): return [(st, UNIT)]
    cell, path, l0, ln = vw
    src = E.subc(E.read(st, cell, path), add(l0, lo), sub(hi, lo))
    put(E, st, c, (cell, path, add(l0, dst), sub(hi, lo)), src)
    return UNIT
@model(*S("to_vec"), "alloc::slice::{impl#0}::to_vec", "alloc::slice::to_vec")
def _(E, st, c, r): return content(E, st, r)
@model(*S("contains"))
def _(E, st, c, r, x): return ("call", "contains", "", E.deep(st, r), E.deep(st, x))
@model(*S("concat"))
def _(E, st, c, r):
    v = content(E, st, r)
    if v[0] == "agg" and v[1] == "array": items = v[4]
    elif v[0] == "cat" and len(v) > 1 and all(x[0] == "one" for x in v[1:]): items = [x[1] for x in v[1:]]
    else: return ("call", "concat", "", E.deep(st, r))
    out = ("cat",)
    for x in items: out = catadd(out, content(E, st, x) if x[0] in ("ref", "slice", "&") else x)
    return out
@model(V + "new", V + "with_capacity", "alloc::string::String::new")
def _(E, st, c, *a): return ("cat",)
@model("alloc::vec::from_elem")
def _(E, st, c, v, n): return ("rep", v, n)
def catadd(v, x):
    if x[0] == "agg" and x[1] == "array" and not x[4] or x == ("cat",): return v if v[0] == "cat" else ("cat", v)
    xs = (x,)
    if x[0] == "agg" and x[1] == "array" and len(x[4]) <= 4: xs = tuple(("one", y) for y in x[4])
    elif x[0] == "bytes" and len(x[1]) == 1: xs = (("one", I(x[1][0])),)
    elif x[0] == "rep" and x[2] == I(1): xs = (("one", x[1]),)
    if v[0] == "cat": return v + xs
    return ("cat", v) + xs
@model(V + "push")
def _(E, st, c, r, x):
    cell, path = E.deref(r)
    E.write(st, cell, path, catadd(E.read(st, cell, path), ("one", x)), c.fr if cell[0] == "ext" else None, c.line); return UNIT
@model(V + "extend_from_slice")
def _(E, st, c, r, s):
    cell, path = E.deref(r)
    E.write(st, cell, path, catadd(E.read(st, cell, path), content(E, st, s)), c.fr if cell[0] == "ext" else None, c.line); return UNIT
@model(V + "append")
def _(E, st, c, r, s):
    cell, path = E.deref(r)
    x = pointee(E, st, s)
    E.write(st, cell, path, catadd(E.read(st, cell, path), x), c.fr if cell[0] == "ext" else None, c.line)
    E.write(st, *E.deref(s), ("cat",)); return UNIT
@model("core::iter::traits::collect::Extend::extend")
def _(E, st, c, r, s):
    if not c.self.startswith("alloc::vec::Vec"): raise NoModel
    cell, path = E.deref(r)
    it = to_iter(E, st, s)
    if it is None and any(re.match(r"^(alloc::vec::Vec<|alloc::boxed::Box<\[|\[)", g) for g in c.gargs[1:]):
        E.write(st, cell, path, catadd(E.read(st, cell, path), s), c.fr if cell[0] == "ext" else None, c.line); return UNIT
    if it is None: raise NoModel
    if it[0] == "agg" and it[1] == "iter" and it[2] in ("slice",) and it[4][1] == I(0): x = content(E, st, it[4][0])
    elif it[0] == "agg" and it[1] == "iter" and it[2] in ("copied", "cloned") and it[4][0][2] == "slice" and it[4][0][4][1] == I(0): x = content(E, st, it[4][0][4][0])
    elif it[0] == "agg" and it[1] == "iter" and it[2] == "vals" and it[4][1] == I(0): x = it[4][0]
    elif it[0] == "agg" and it[1] == "array": x = it
    else: raise NoModel
    E.write(st, cell, path, catadd(E.read(st, cell, path), x), c.fr if cell[0] == "ext" else None, c.line); return UNIT
@model(V + "clear")
def _(E, st, c, r):
    cell, path = E.deref(r)
    if cell[0] == "ext" or True:
        from engine import Ev
        n = st.fresh()
        st.trace.append(Ev("call", c.cid, c.self, tuple(c.gargs), (E.deep_place(st, cell, path),), UNIT, c.fr.fn.key, c.line, n, stack=tuple(f.fn.key for f in st.frames), file=c.file))
    E.write(st, cell, path, ("cat",)); return UNIT
@model(V + "truncate")
def _(E, st, c, r, n):
    cell, path = E.deref(r)
    v = E.read(st, cell, path)
    res = []
    for s, k in boolsplit(E, st, Lt(n, E.clen(v))):
        if k: E.write(s, cell, path, E.subc(v, I(0), n), c.fr if cell[0] == "ext" else None, c.line)
        res.append((s, UNIT))
    return res
def explode(E, v, cap=128):
    """elements of a content of constant length"""
    n = E.clen(v)
    if not is_int(n) or n[1] > cap: raise NoModel
    return [E.elem(v, I(i)) for i in range(n[1])]
def vec_edit(f):
    def g(E, st, c, r, *a):
        cell, path = E.deref(r)
        xs = explode(E, E.read(st, cell, path))
        res = f(E, st, c, xs, *a)
        E.write(st, cell, path, ("cat",) + tuple(("one", x) for x in xs), c.fr if cell[0] == "ext" else None, c.line)
        return res
    return g
@model(V + "swap_remove")
@vec_edit
def _(E, st, c, xs, i):
    if not is_int(i) or i[1] >= len(xs): raise NoModel
    v = xs[i[1]]; l = xs.pop()
    if i[1] < len(xs): xs[i[1]] = l
    return v
@model(V + "remove")
@vec_edit
def _(E, st, c, xs, i):
    if not is_int(i) or i[1] >= len(xs): raise NoModel
    return xs.pop(i[1])
@model(V + "insert")
@vec_edit
def _(E, st, c, xs, i, x):
    if not is_int(i) or i[1] > len(xs): raise NoModel
    xs.insert(i[1], x); return UNIT
@model(V + "pop")
@vec_edit
def _(E, st, c, xs):
    return some(xs.pop()) if xs else NONE
@model(*S("swap"))
def _(E, st, c, r, i, j):
    vw = view(E, st, r)
    a, b = pointee(E, st, elref(vw, i)), pointee(E, st, elref(vw, j))
    E.write(st, *E.deref(elref(vw, i)), b); E.write(st, *E.deref(elref(vw, j)), a); return UNIT
@model(*S("reverse"))
def _(E, st, c, r):
    vw = view(E, st, r)
    xs = explode(E, content(E, st, r))
    put(E, st, c, vw, ("agg", "array", None, 0, tuple(reversed(xs)))); return UNIT
@model(*S("into_vec"), "alloc::slice::{impl#0}::into_vec", "alloc::slice::into_vec", *S("into_boxed_slice"), V + "into_boxed_slice")
def _(E, st, c, r): return content(E, st, r) if r[0] in ("ref", "slice", "&") else r
@model("core::cmp::impls::never")
def _(E, st, c): raise NoModel

# ------------------------------------------------------------------ iterators
def it(kind, *f): return ("agg", "iter", kind, 0, tuple(f))
def to_iter(E, st, v):
    if v[0] == "agg":
        if v[1] == "iter": return v
        if v[1] == "array": return it("vals", v, I(0))
        if v[1] == "adt" and v[2].split("::")[-1] in ("Range", "RangeInclusive", "RangeFrom"): return v
        if v[1] == "adt" and v[2] == OPT: return it("opt", v)
    if v[0] in ("slice", "ref", "&"):
        x = pointee(E, st, v) if v[0] == "ref" else None
        if x is not None and x[0] == "agg" and x[1] == "iter": return it("byref", v)
        if x is not None and x[0] == "agg" and x[1] == "adt" and x[2].split("::")[-1] in ("Range", "RangeFrom"): return it("byref", v)
        vw = view(E, st, v)
        return it("slice", ("slice",) + tuple(vw), I(0))
    if v[0] in ("cat", "rep", "bytes", "sub"): return it("vals", v, I(0))
    return None
@model("core::iter::traits::collect::IntoIterator::into_iter")
def _(E, st, c, v):
    t = c.self
    if re.match(r"^&(mut )?(\[|alloc::vec::Vec)", t):
        vw = view(E, st, v)
        return it("slice", ("slice",) + tuple(vw), I(0))
    if re.match(r"^&(mut )?(std|alloc)::collections::", t) and "vec_deque" not in t: return it("opaque", E.deep(st, v), I(st.fresh()))
    x = to_iter(E, st, v)
    if x is not None and x is v and x[2] == "slice" and (is_int(x[4][0][4]) or t.startswith("core::slice::iter::Iter")): return x
    if x is None or (x[2] == "slice" and not t.startswith("&")):
        return it("opaque", E.deep(st, v), I(st.fresh()))
    return x
@model(*S("iter", "iter_mut"))
def _(E, st, c, r):
    vw = view(E, st, r)
    return it("slice", ("slice",) + tuple(vw), I(0))
@model(*S("chunks", "chunks_mut"))
def _(E, st, c, r, n):
    if not E.require(st, c, Not(Eq(n, I(0))), "chunks(0)"): return [(st, UNIT)]
    return it("chunks", ("slice",) + tuple(view(E, st, r)), n)
@model(*S("chunks_exact", "chunks_exact_mut"))
def _(E, st, c, r, n):
    if not E.require(st, c, Not(Eq(n, I(0))), "chunks_exact(0)"): return [(st, UNIT)]
    return it("chunks_exact", ("slice",) + tuple(view(E, st, r)), n)
@model("core::slice::iter::ChunksExact::remainder", "core::slice::iter::ChunksExactMut::into_remainder")
def _(E, st, c, r):
    v = r if r[0] == "agg" else pointee(E, st, r)
    sl, n = v[4]
    m = E.rem(sl[4], n[1]) if is_int(n) else op("Rem", sl[4], n)
    return mk(sl[1:], sub(sl[4], m), m)
for nm in ("copied", "cloned", "enumerate", "rev", "fuse", "peekable"):
    def mkm(nm):
        def f(E, st, c, v):
            x = to_iter(E, st, v)
            if x is None: raise NoModel
            if nm in ("fuse",): return x
            return it(nm, x, I(0))
        return f
    MODELS["core::iter::traits::iterator::Iterator::" + nm] = wrap(mkm(nm))
for nm in ("map", "filter", "take", "skip", "zip", "filter_map", "chain", "step_by"):
    def mkm2(nm):
        def f(E, st, c, v, a):
            x = to_iter(E, st, v)
            if x is None: raise NoModel
            if nm in ("zip", "chain"):
                a = to_iter(E, st, a)
                if a is None: raise NoModel
            if nm == "take" and x[1] == "iter" and x[2] == "slice" and x[4][1] == I(0):
                vw = x[4][0]
                if is_int(a) and is_int(vw[4]): return it("slice", vw[:4] + (I(min(a[1], vw[4][1])),), I(0))
                return [(s, it("slice", vw[:4] + ((a if k else vw[4]),), I(0))) for s, k in boolsplit(E, st, Le(a, vw[4]))]
            return it(nm, x, a)
        return f
    MODELS["core::iter::traits::iterator::Iterator::" + nm] = wrap(mkm2(nm))
@model("core::iter::traits::iterator::Iterator::by_ref")
def _(E, st, c, v): return v

def it_next(E, st, x):
    """[(state, item|None, new iterator)] ; raises NoModel"""
    if x[1] == "adt":
        n = x[2].split("::")[-1]
        if n == "Range":
            lo, hi = x[4]
            res = []
            for s, k in boolsplit(E, st, Lt(lo, hi)):
                res.append((s, lo if k else None, x[:4] + ((add(lo, I(1)), hi),) if k else x))
            return res
        if n == "RangeFrom":
            lo, = x[4]
            return [(st, lo, x[:4] + ((add(lo, I(1)),),))]
        if n == "RangeInclusive":
            lo, hi = x[4][0], x[4][1]
            done = x[4][2] if len(x[4]) > 2 else FALSE
            res = []
            for s, k in boolsplit(E, st, Le(lo, hi)):
                res.append((s, lo if k else None, x[:4] + ((add(lo, I(1)), hi) + x[4][2:],) if k else x))
            return res
        raise NoModel
    kind = x[2]; f = x[4]
    def re_(*nf): return x[:4] + (tuple(nf),)
    if kind == "slice":
        sl, pos = f
        res = []
        for s, k in boolsplit(E, st, Lt(pos, sl[4])):
            res.append((s, elref(sl[1:], pos) if k else None, re_(sl, add(pos, I(1))) if k else x))
        return res
    if kind == "vals":
        v, pos = f
        res = []
        for s, k in boolsplit(E, st, Lt(pos, E.clen(v))):
            res.append((s, E.elem(v, pos) if k else None, re_(v, add(pos, I(1))) if k else x))
        return res
    if kind == "opt":
        return [(s, None if k == 0 else payload(f[0], 1), re_(NONE)) for s, k in split(E, st, f[0], OPT)]
    if kind == "byref":
        inner = pointee(E, st, f[0])
        res = []
        for s, item, ni in it_next(E, st, inner):
            E.write(s, *E.deref(f[0]), ni)
            res.append((s, item, x))
        return res
    if kind == "chunks":
        sl, n = f
        res = []
        for s, k in boolsplit(E, st, Lt(I(0), sl[4])):
            if not k: res.append((s, None, x)); continue
            for s2, full in boolsplit(E, s, Le(n, sl[4])):
                m = n if full else sl[4]
                res.append((s2, mk(sl[1:], I(0), m), re_(mk(sl[1:], m, sub(sl[4], m)), n)))
        return res
    if kind == "chunks_exact":
        sl, n = f
        return [(s, mk(sl[1:], I(0), n) if k else None, re_(mk(sl[1:], n, sub(sl[4], n)), n) if k else x) for s, k in boolsplit(E, st, Le(n, sl[4]))]
    if kind in ("copied", "cloned"):
        return [(s, None if i is None else pointee(E, s, i), re_(ni, f[1])) for s, i, ni in it_next(E, st, f[0])]
    if kind == "enumerate":
        return [(s, None if i is None else tup(f[1], i), re_(ni, add(f[1], I(1)) if i is not None else f[1])) for s, i, ni in it_next(E, st, f[0])]
    if kind == "take":
        res = []
        for s, k in boolsplit(E, st, Lt(I(0), f[1])):
            if not k: res.append((s, None, x)); continue
            for s2, i, ni in it_next(E, s, f[0]): res.append((s2, i, re_(ni, sub(f[1], I(1)))))
        return res
    if kind == "skip":
        if f[0][1] == "iter" and f[0][2] in ("slice", "vals") and f[1] != I(0):
            sl, pos = f[0][4]
            return it_next(E, st, it(f[0][2], sl, add(pos, f[1])))  if False else [(s, i, it("skip", ni, I(0))) for s, i, ni in it_next(E, st, f[0][:4] + ((sl, add(pos, f[1])),))]
        if f[1] == I(0): return [(s, i, re_(ni, I(0))) for s, i, ni in it_next(E, st, f[0])]
        raise NoModel
    if kind == "rev":
        inner = f[0]
        if inner[1] == "iter" and inner[2] == "slice":
            sl, pos = inner[4]
            res = []
            for s, k in boolsplit(E, st, Lt(pos, sl[4])):
                if not k: res.append((s, None, x)); continue
                l1 = sub(sl[4], I(1))
                res.append((s, elref(sl[1:], l1), re_(inner[:4] + ((sl[:4] + (l1,), pos),), f[1])))
            return res
        if inner[1] == "adt" and inner[2].split("::")[-1] == "Range":
            lo, hi = inner[4]
            res = []
            for s, k in boolsplit(E, st, Lt(lo, hi)):
                if not k: res.append((s, None, x)); continue
                h1 = sub(hi, I(1))
                res.append((s, h1, re_(inner[:4] + ((lo, h1),), f[1])))
            return res
        raise NoModel
    if kind == "zip":
        res = []
        for s, i, ni in it_next(E, st, f[0]):
            if i is None: res.append((s, None, re_(ni, f[1]))); continue
            for s2, j, nj in it_next(E, s, f[1]):
                res.append((s2, None if j is None else tup(i, j), re_(ni, nj)))
        return res
    if kind == "chain":
        res = []
        for s, i, ni in it_next(E, st, f[0]):
            if i is not None: res.append((s, i, re_(ni, f[1]))); continue
            for s2, j, nj in it_next(E, s, f[1]): res.append((s2, j, re_(ni, nj)))
        return res
    if kind == "opaque":
        s2 = st.fork()
        for s in (st, s2): s.frames[-1].nondet = True
        n = st.fresh()
        from engine import Ev
        for s, w in ((st, n), (s2, None)): s.trace.append(Ev("next", "next", gargs=(f[1],), args=(f[0],), res=UNIT, n=n, x=w, fn=s.frames[-1].fn.key, line=0))
        return [(st, ("item", f[0], n), x), (s2, None, x)]
    raise NoModel

def finite(x):
    """an iterator over a list of known items, from a known place"""
    return x[0] == "agg" and x[1] == "iter" and x[2] == "vals" and is_int(x[4][1]) and x[4][0][0] == "cat" and all(i[0] == "one" for i in x[4][0][1:])
def filter_next(E, st, c, v, cell, path):
    """next of a filter over a list of known items: the first one that is let through"""
    def go(E, st, x):
        res = []
        for s, i, ni in it_next(E, st, x):
            E.write(s, cell, path, v[:4] + ((ni, v[4][1]),))
            if i is None: res.append((s, NONE)); continue
            hc = ("heap", s.fresh()); s.mem[hc] = i
            def cont(E, st, r, i=i, ni=ni):
                o = []
                for y, b in boolsplit(E, st, r): o += [(y, some(i))] if b else go(E, y, ni)
                return o
            r = E.apply_fn(s, v[4][1], [("ref", hc, ())], cont, c, c.dest, c.tgt)
            res += [(z, None) for z in (r if r else [s])]
        return res
    return walked(go(E, st, v[4][0]))
@model("core::iter::traits::iterator::Iterator::next")
def _(E, st, c, r):
    if c.ikey in E.p.fns: raise NoModel
    v = pointee(E, st, r)
    if v[0] != "agg": raise NoModel
    cell, path = E.deref(r)
    if v[1] == "iter" and v[2] in ("map", "filter", "filter_map"):
        res = []
        if v[2] == "filter" and finite(v[4][0]): return filter_next(E, st, c, v, cell, path)
        for s, i, ni in it_next(E, st, v[4][0]):
            E.write(s, cell, path, v[:4] + ((ni, v[4][1]),))
            if i is None: res.append((s, NONE)); continue
            if v[2] == "map":
                res.append((s, ["apply", v[4][1], [i], one(some)])); continue
            if v[2] == "filter_map": raise NoModel
            hc = ("heap", s.fresh()); s.mem[hc] = i
            def cont(E, st, r, i=i):
                o = []
                for x, b in boolsplit(E, st, r):
                    if b: o.append((x, some(i)))
                    else:
                        # skipped: approximate the following items by "no more items" or an unknown later item
                        y = x.fork()
                        o.append((x, NONE)); o.append((y, some(("skipped", i))))
                return o
            res.append((s, ["apply", v[4][1], [("ref", hc, ())], cont]))
        return outs(E, c, res)
    res = []
    for s, i, ni in it_next(E, st, v):
        E.write(s, cell, path, ni)
        res.append((s, NONE if i is None else some(i)))
    return res
def drain(E, st, x, maxn=64):
    """all items of a statically sized iterator"""
    items = []
    for _ in range(maxn + 1):
        r = it_next(E, st, x)
        if len(r) != 1: raise NoModel
        st2, i, x = r[0]
        if i is None: return items
        items.append(i)
    raise NoModel
def walk(E, st, c, x, fin):
    """all items of a statically sized iterator, closures applied; fin(E, st, items) -> [(state, value)]"""
    if x[1] == "iter" and x[2] in ("map", "filter", "filter_map"):
        kind, inner, f = x[2], x[4][0], x[4][1]
        def got(E, st, items):
            def go(E, st, k, acc):
                if k == len(items): return fin(E, st, acc)
                it = items[k]; arg = it
                if kind == "filter":
                    hc = ("heap", st.fresh()); st.mem[hc] = it; arg = ("ref", hc, ())
                def cont(E, s, v):
                    if kind == "map": return go(E, s, k + 1, acc + [v])
                    o = []
                    if kind == "filter":
                        for s2, b in boolsplit(E, s, v): o.extend(go(E, s2, k + 1, acc + ([it] if b else [])))
                    else:
                        for s2, b in split(E, s, v, OPT): o.extend(go(E, s2, k + 1, acc + ([payload(v, 1)] if b else [])))
                    return o
                r = E.apply_fn(st, f, [arg], cont, c, c.dest, c.tgt)
                return [(s, None) for s in (r if r else [st])]
            return go(E, st, 0, [])
        return walk(E, st, c, inner, got)
    return fin(E, st, drain(E, st, x))
def walked(r):
    if all(v is not None for _, v in r): return r
    if any(v is not None for _, v in r): raise NoModel
    return Raw([s for s, _ in r])
@model("core::iter::traits::iterator::Iterator::partition")
def _(E, st, c, v, f):
    x = to_iter(E, st, v)
    if x is None or not any(str(g).startswith("alloc::vec::Vec<") for g in c.gargs): raise NoModel
    def fin(E, st, items):
        def go(E, st, k, a, b):
            if k == len(items): return [(st, tup(("cat",) + tuple(("one", i) for i in a), ("cat",) + tuple(("one", i) for i in b)))]
            hc = ("heap", st.fresh()); st.mem[hc] = items[k]
            def cont(E, s, v):
                o = []
                for s2, w in boolsplit(E, s, v): o.extend(go(E, s2, k + 1, a + [items[k]] if w else a, b if w else b + [items[k]]))
                return o
            r = E.apply_fn(st, f, [("ref", hc, ())], cont, c, c.dest, c.tgt)
            return [(s, None) for s in (r if r else [st])]
        return go(E, st, 0, [], [])
    return walked(walk(E, st, c, x, fin))
@model("core::iter::traits::iterator::Iterator::fold")
def _(E, st, c, v, init, f):
    x = to_iter(E, st, v)
    if x is None or (x[1] == "iter" and x[2] in ("map", "filter")): raise NoModel
    items = drain(E, st, x)
    def go(E, st, acc, k):
        if k == len(items): return [(st, acc)]
        r = E.apply_fn(st, f, [acc, items[k]], lambda E, s, a: go(E, s, a, k + 1), c, c.dest, c.tgt)
        return [(s, None) for s in (r if r else [st])]
    if not items: return init
    r = E.apply_fn(st, f, [init, items[0]], lambda E, s, a: go(E, s, a, 1), c, c.dest, c.tgt)
    return Raw(r if r else [st])
@model("core::iter::traits::iterator::Iterator::for_each")
def _(E, st, c, v, f):
    x = to_iter(E, st, v)
    if x is None: raise NoModel
    items = drain(E, st, x)
    def go(E, st, acc, k):
        if k == len(items): return [(st, UNIT)]
        r = E.apply_fn(st, f, [items[k]], lambda E, s, a: go(E, s, a, k + 1), c, c.dest, c.tgt)
        return [(s, None) for s in (r if r else [st])]
    if not items: return UNIT
    r = E.apply_fn(st, f, [items[0]], lambda E, s, a: go(E, s, a, 1), c, c.dest, c.tgt)
    return Raw(r if r else [st])
@model("core::iter::traits::iterator::Iterator::collect")
def _(E, st, c, v):
    x = to_iter(E, st, v)
    if x is None: raise NoModel
    if x[1] == "iter" and x[2] in ("copied", "cloned") and x[4][0][2] == "slice": return content(E, st, x[4][0][4][0])
    if not any(str(g).startswith("alloc::vec::Vec<") for g in c.gargs): raise NoModel
    return walked(walk(E, st, c, x, lambda E, st, items: [(st, ("cat",) + tuple(("one", i) for i in items))]))
@model("core::iter::traits::exact_size::ExactSizeIterator::len", "core::iter::traits::iterator::Iterator::count")
def _(E, st, c, v):
    x = pointee(E, st, v) if c.cid.endswith("len") else to_iter(E, st, v)
    if x is None or x[0] != "agg": raise NoModel
    if x[1] == "iter" and x[2] == "slice": return sub(x[4][0][4], x[4][1])
    if x[1] == "iter" and x[2] == "chunks" and is_int(x[4][1]): return op("divceil", x[4][0][4], x[4][1])
    raise NoModel
def it_any(E, st, x):
    """[(state, item, index)]: an arbitrary item of a sequence of unknown length"""
    if x[1] != "iter": raise NoModel
    k = x[2]; f = x[4]
    if k in ("slice", "vals"):
        import numdom
        sl, pos = f
        idx = ("sym", "idx", st.fresh())
        ln = sl[4] if k == "slice" else E.clen(sl)
        st.lin.append(numdom.ge(idx, pos)); st.lin.append(numdom.ge(sub(ln, I(1)), idx))
        return [(st, elref(sl[1:], idx) if k == "slice" else E.elem(sl, idx), sub(idx, pos))]
    if k in ("copied", "cloned"): return [(s, pointee(E, s, i), n) for s, i, n in it_any(E, st, f[0])]
    if k == "enumerate" and f[1] == I(0): return [(s, tup(n, i), n) for s, i, n in it_any(E, st, f[0])]
    if k == "byref": return it_any(E, st, pointee(E, st, f[0]))
    if k == "opaque":
        n = st.fresh()
        return [(st, ("item", f[0], n), ("sym", "idx", n))]
    raise NoModel
def it_src(E, st, x):
    """what the iterator walks over (deep snapshot), for rules"""
    return E.deep(st, x)
def decide(E, st, r, opt):
    """outcomes of a predicate: [(state, holds, result)]"""
    if opt: return [(s, bool(k), payload(r, 1) if k else None) for s, k in split(E, st, r, OPT)]
    return [(s, bool(b), None) for s, b in boolsplit(E, st, r)]
def search(E, st, c, x, pred, hit, miss, byref, want=True, opt=False):
    """first item with pred(item) == want: some arbitrary item for which it holds, or none (and then it fails for an arbitrary item)"""
    from engine import Ev
    src = it_src(E, st, x)
    def ev(s, what, item):
        s.trace.append(Ev("search", c.cid, args=(src, E.deep(s, item) if item is not None else UNIT), fn=c.fr.fn.key, line=c.line, file=c.file, x=what, stack=tuple(f.fn.key for f in s.frames)))
    res = []
    s1 = st.fork(); s2 = st.fork(); s3 = st
    for s in (s1, s2, s3):
        for fr in s.frames: fr.nondet = True
    def arg(s, i):
        if not byref: return i
        hc = ("heap", s.fresh()); s.mem[hc] = i
        return ("ref", hc, ())
    for s, i, n in it_any(E, s1, x):
        def cont(E, st, r, i=i, n=n):
            o = []
            for y, b, w in decide(E, st, r, opt):
                if b != want: continue
                ev(y, "hit", i); o.append((y, some(w) if opt else hit(i, n)))
            return o
        res.append((s, ["apply", pred, [arg(s, i)], cont]))
    for s, i, n in it_any(E, s2, x):
        def cont(E, st, r, i=i, n=n):
            o = []
            for y, b, w in decide(E, st, r, opt):
                if b == want: continue
                ev(y, "miss", i); o.append((y, miss))
            return o
        res.append((s, ["apply", pred, [arg(s, i)], cont]))
    ev(s3, "empty", None)
    res.append((s3, miss))
    return outs(E, c, res)
def search_model(hit, miss, byref, want=True, viaref=False, opt=False):
    def f(E, st, c, v, pred):
        if c.ikey in E.p.fns: raise NoModel
        x = pointee(E, st, v) if viaref else to_iter(E, st, v)
        if x is None or x[0] != "agg": raise NoModel
        try: items = drain(E, st.fork(), x, 16)
        except NoModel: items = None
        if items is not None and x[1] == "iter":
            # statically sized: in order
            def go(E, st, k):
                if k == len(items): return [(st, miss)]
                a = items[k]
                if byref:
                    hc = ("heap", st.fresh()); st.mem[hc] = a; a = ("ref", hc, ())
                def cont(E, st, r):
                    o = []
                    for y, b, w in decide(E, st, r, opt):
                        if b == want: o.append((y, some(w) if opt else hit(items[k], I(k))))
                        else: o.extend(go(E, y, k + 1))
                    return o
                r = E.apply_fn(st, pred, [a], cont, c, c.dest, c.tgt)
                return [(s, None) for s in (r if r is not None else [st])]
            return go(E, st, 0)
        if x[1] != "iter": raise NoModel
        return search(E, st, c, x, pred, hit, miss, byref, want, opt)
    return f
_IT = "core::iter::traits::iterator::Iterator::"
MODELS[_IT + "find"] = wrap(search_model(lambda i, n: some(i), NONE, True, viaref=True))
MODELS[_IT + "find_map"] = wrap(search_model(None, NONE, False, viaref=True, opt=True))
@model("std::collections::hash::set::HashSet::iter")
def _(E, st, c, r): return it("opaque", E.deep(st, r), I(st.fresh()))
MODELS[_IT + "any"] = wrap(search_model(lambda i, n: TRUE, FALSE, False, viaref=True))
MODELS[_IT + "all"] = wrap(search_model(lambda i, n: FALSE, TRUE, False, want=False, viaref=True))
MODELS[_IT + "position"] = wrap(search_model(lambda i, n: some(n), NONE, False, viaref=True))
@model(V + "retain")
def _(E, st, c, r, pred):
    """an arbitrary element is kept or dropped as the predicate says; the rest of the list is left abstract"""
    from engine import Ev
    cont_ = pointee(E, st, r)
    vw = view(E, st, r)
    res = []
    s0 = st.fork()
    for s in (s0, st):
        for fr in s.frames: fr.nondet = True
    n = st.fresh(); s0.fresh()
    cell, path = E.deref(r)
    src = E.deep(st, cont_)
    for s, i, k in it_any(E, st, it("slice", ("slice",) + tuple(vw), I(0))):
        def cont(E, st, v, i=i):
            o = []
            for y, b in boolsplit(E, st, v):
                y.trace.append(Ev("retain", c.cid, args=(src, E.deep(y, i)), fn=c.fr.fn.key, line=c.line, file=c.file, x="keep" if b else "remove", stack=tuple(f.fn.key for f in y.frames)))
                E.write(y, cell, path, ("retained", cont_, n))
                o.append((y, UNIT))
            return o
        res.append((s, ["apply", pred, [i], cont]))
    s0.trace.append(Ev("retain", c.cid, args=(src, UNIT), fn=c.fr.fn.key, line=c.line, file=c.file, x="empty", stack=tuple(f.fn.key for f in s0.frames)))
    res.append((s0, UNIT))
    return outs(E, c, res)
@model("core::pin::helper::pin_new_unchecked_in_helper", "core::pin::pin_new_unchecked_in_helper")
def _(E, st, c, v): return ("agg", "adt", "core::pin::Pin", 0, (refto(E, st, v, ("f", 0, 0)),))
@model("core::intrinsics::discriminant_value")
def _(E, st, c, r):
    v = pointee(E, st, r)
    t = c.gargs[0] if c.gargs else ""
    return E.discr(v, re.split("<", t)[0] or None)
@model("core::array::{impl#1}::map", "[T;N]::map")
def _(E, st, c, v, f): raise NoModel

# ------------------------------------------------------------------ futures
def await_pollfn(E, st, fut, ref, c, destp, tgt, onret):
    return NotImplemented
def await_agg(E, st, fut, ref, c, destp, tgt, onret):
    if fut[1] == "readyfut": return E.apply_onret(st, onret, fut[4][0], destp, tgt)
    if fut[1] == "pendingfut":
        E.finish(st, "forever"); return [st]
    if fut[1] == "select2":
        return branch_futures(E, st, fut[4], lambda i, v: ("agg", "adt", fut[2], i, (v, ) if fut[2].endswith("Either") else (v,)), c, destp, tgt, onret)
    if fut[1] == "withtimeout":
        d, f = fut[4]
        return branch_futures(E, st, (f, ("call", "embassy_time::timer::Timer::after", "", d)),
                              lambda i, v: ok(v) if i == 0 else err(("sym", "TimeoutError")), c, destp, tgt, onret)
    if fut[1] == "timeout":
        def wrapok(E, st, v, onret=onret):
            return ("agg", "adt", RES, 0, (v,))
        s2 = st.fork()
        for s in (st, s2): s.frames[-1].nondet = True
        from engine import Ev
        s2.trace.append(Ev("timeout", args=(fut[4][0],), fn=c.fr.fn.key, line=c.line, file=c.file))
        r1 = E.await_value(st, E.fut_value(st, fut[4][1]), fut[4][1], c, destp, tgt, chain(onret, ok))
        r2 = E.apply_onret(s2, onret, err(("sym", "Elapsed")), destp, tgt)
        return (r1 if r1 else [st]) + (r2 if r2 else [s2])
    if fut[1] == "pollfn":
        return poll_select(E, st, fut, c, destp, tgt, onret)
    if fut[1] == "adt":
        # a hand-written Future: left opaque
        return NotImplemented
    return NotImplemented
def chain(onret, f):
    """onret that first maps the value through f"""
    if onret[0] == "poll": return ("wrap", lambda E, st, v: ready(f(v)))
    if onret[0] == "wrap":
        g = onret[1]
        def h(E, st, v):
            x = f(v); r = g(E, st, x)
            return x if r is None else r
        return ("wrap", h)
    if onret[0] == "cont":
        g = onret[1]
        return ("cont", lambda E, st, v: g(E, st, f(v)))
    raise Exception("chain")
MODELS["await:agg"] = await_agg
def branch_futures(E, st, futs, mkv, c, destp, tgt, onret, on=None):
    from engine import Ev
    res = []
    n = len(futs)
    if on is None: on = list(range(n))
    for i, f in enumerate(futs):
        if i not in on: continue
        s = st.fork() if i != on[-1] else st
        for fr in s.frames: fr.nondet = True
        s.trace.append(Ev("select", x=i, args=tuple(E.deep(s, x) for x in futs), fn=c.fr.fn.key, line=c.line, file=c.file, stack=tuple(fr.fn.key for fr in s.frames)))
        r = E.await_value(s, E.fut_value(s, f), f, c, destp, tgt, chain(onret, lambda v, i=i: mkv(i, v)))
        res.extend(r if r else [s])
    return res
def poll_select(E, st, fut, c, destp, tgt, onret):
    """tokio::select!: poll_fn over a closure capturing a tuple of futures; result enum Out::_i"""
    clo = fut[4][0]
    if not (clo[0] == "agg" and clo[1] == "closure"): return NotImplemented
    fn = E.p.fns.get(clo[2])
    # the Out enum: any ADT named `Out` in __tokio_select_util built in this closure
    out = None
    if fn is not None:
        import json
        for b in fn.bbs:
            for s in b["s"]:
                if s[0] == "=" and s[2][0] == "agg" and s[2][1] == "adt" and s[2][2].endswith("__tokio_select_util::Out"):
                    out = s[2][2]
    if out is None: return NotImplemented
    futs = None; mask = 0
    for cap in clo[4]:
        v = cap
        if v[0] == "ref":
            m = E.read(st, v[1], v[2])
            if m[0] == "int": mask = m[1]
        for _ in range(4):
            if v[0] == "ref": 
                base = v
                v = E.read(st, v[1], v[2])
            else: break
        if v[0] == "agg" and v[1] == "tuple" and v[4]:
            futs = [("ref", base[1], base[2] + (("f", 0, i),)) for i in range(len(v[4]))] if cap[0] == "ref" else list(v[4])
    if futs is None: return NotImplemented
    on = [i for i in range(len(futs)) if not mask >> i & 1]     # branches without a failed `if` guard
    if not on: return NotImplemented
    return branch_futures(E, st, futs, lambda i, v: ("agg", "adt", out, i, (v,)), c, destp, tgt, onret, on)
@model("embassy_futures::select::select")
def _(E, st, c, a, b): return ("agg", "select2", "embassy_futures::select::Either", 0, (a, b))
@model("embassy_time::timer::with_timeout")
def _(E, st, c, d, f): return ("agg", "withtimeout", None, 0, (E.deep(st, d), f))
@model("tokio::time::timeout::timeout")
def _(E, st, c, d, f):
    return ("agg", "timeout", None, 0, (E.deep(st, d), f))

# things that neither matter nor change state
IGN = ["core::fmt::rt::{impl#1}::new_display"]
@model("core::fmt::rt::Argument::new_display", "core::fmt::rt::Argument::new_debug", "core::fmt::Arguments::new_v1", "core::fmt::Arguments::new_const",
       "core::fmt::Arguments::new", "core::fmt::Arguments::from_str", "core::fmt::Arguments::from_str_nonconst")
def _(E, st, c, *a): return ("call", c.cid, "") + tuple(E.deep(st, x) for x in a)
PURE |= {"core::time::Duration::from_millis", "core::time::Duration::from_secs", "embassy_time::duration::Duration::from_millis",
         "embassy_time::timer::Timer::after", "embassy_time::timer::Timer::after_millis", "embassy_time::timer::Timer::after_secs",
         "core::default::Default::default"}
@model("core::default::Default::default")
def _(E, st, c):
    if c.ikey in E.p.fns: raise NoModel
    t = c.gargs[0] if c.gargs else ""
    if t.startswith(OPT): return NONE
    if t.startswith(("alloc::vec::Vec<", "alloc::collections::vec_deque::VecDeque<")): return ("cat",)
    if t == "bool" or t in E.WIDTH: return I(0)
    if t == "()": return UNIT
    raise NoModel
def no_pure(): pass
# ------------------------------------------------------------------ postcard_schema::key::Key
@model("postcard_schema::key::Key::to_bytes")
def _(E, st, c, r):
    v = r
    while v[0] in ("ref", "slice", "&"): v = pointee(E, st, v)
    if v[0] == "call" and v[1].endswith("Key::from_bytes"): return v[3]
    if v[0] == "constb": return ("bytes", v[3])
    if v[0] == "bytes": return v
    return ("kb", v)
@model("postcard_schema::key::Key::from_bytes")
def _(E, st, c, b):
    if b[0] == "kb": return b[1]
    return ("call", "postcard_schema::key::Key::from_bytes", "", E.deep(st, b))

@model("core::fmt::write", "core::fmt::Write::write_fmt")
def _(E, st, c, w, args):
    """any number of write_str calls on the writer (witness::fmt_write_model)"""
    fn = E.p.fns.get("witness::fmt_write_model")
    if fn is None: raise NoModel
    v = pointee(E, st, w)
    if v[0] != "agg" or v[1] != "adt": raise NoModel
    if v[2].startswith(("alloc::", "core::")): raise NoModel
    from engine import Ev
    st.trace.append(Ev("fmt", c.cid, args=(E.deep(st, args),), fn=c.fr.fn.key, line=c.line, file=c.file))
    E.call_frame(st, fn, [w], c.dest, c.tgt, {"S": "S", "W": v[2]})
    return "pushed"
