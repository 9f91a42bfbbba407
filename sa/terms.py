"""Abstract values (value-numbered terms) and the small algebra over them."""
INT = "int"
def I(n): return ("int", n)
UNDEF = ("undef",)
MOVED = ("moved",)
UNIT = ("agg", "tuple", None, 0, ())
TRUE = I(1); FALSE = I(0)

def is_int(t): return t[0] == "int"

# ---------------------------------------------------------------- linear terms
def lin(t):
    """term -> (const, {atom: coef})"""
    if t[0] == "int": return t[1], {}
    if t[0] == "lin": return t[1], dict(t[2])
    return 0, {t: 1}
def mklin(c, d):
    d = {k: v for k, v in d.items() if v != 0}
    if not d: return I(c)
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1: return k
    return ("lin", c, tuple(sorted(d.items(), key=lambda kv: repr(kv))))
def add(a, b):
    ca, da = lin(a); cb, db = lin(b)
    for k, v in db.items(): da[k] = da.get(k, 0) + v
    return mklin(ca + cb, da)
def neg(a):
    c, d = lin(a)
    return mklin(-c, {k: -v for k, v in d.items()})
def sub(a, b): return add(a, neg(b))
def mulc(a, n):
    c, d = lin(a)
    return mklin(c * n, {k: v * n for k, v in d.items()})

# ---------------------------------------------------------------- xor sets
def xor(a, b):
    def split(t):
        if t[0] == "int": return t[1], set()
        if t[0] == "xor": return t[1], set(t[2])
        return 0, {t}
    ca, sa = split(a); cb, sb = split(b)
    s = sa ^ sb; c = ca ^ cb
    if not s: return I(c)
    if c == 0 and len(s) == 1: return next(iter(s))
    return ("xor", c, tuple(sorted(s, key=repr)))

# ---------------------------------------------------------------- booleans
def Not(t):
    if t[0] == "int": return I(1 - t[1])
    if t[0] == "not": return t[1]
    return ("not", t)
def Lt(a, b):
    d = sub(b, a)                      # a < b  <=>  b - a > 0
    if d[0] == "int": return I(1 if d[1] > 0 else 0)
    return ("lt", a, b)
def Le(a, b): return Not(Lt(b, a))
def Eq(a, b):
    if a == b: return TRUE
    if a[0] == "int" and b[0] == "int": return I(1 if a[1] == b[1] else 0)
    if a[0] in ("int", "lin") or b[0] in ("int", "lin"):
        d = sub(a, b)
        if d[0] == "int": return I(1 if d[1] == 0 else 0)
    if a[0] == "agg" and b[0] == "agg" and a[1] == b[1] and a[1] in ("adt", "tuple", "array") and len(a[4]) == len(b[4]):
        if a[2] == b[2]:
            if a[3] != b[3]: return FALSE
            if len(a[4]) == 1: return Eq(a[4][0], b[4][0])
    if repr(b) < repr(a): a, b = b, a
    return ("eq", a, b)
def And(a, b):
    if a == FALSE or b == FALSE: return FALSE
    if a == TRUE: return b
    if b == TRUE: return a
    if a == b: return a
    return ("op", "And", a, b)

COMM = {"Mul", "BitAnd", "BitOr", "And", "Or", "min", "max"}
def op(name, *args):
    if name in COMM: args = tuple(sorted(args, key=repr))
    return ("op", name) + tuple(args)

# ---------------------------------------------------------------- helpers
def some(v, opt="core::option::Option"): return ("agg", "adt", "core::option::Option", 1, (v,))
NONE = ("agg", "adt", "core::option::Option", 0, ())
def ok(v): return ("agg", "adt", "core::result::Result", 0, (v,))
def err(v): return ("agg", "adt", "core::result::Result", 1, (v,))
def tup(*vs): return ("agg", "tuple", None, 0, tuple(vs))
def ready(v): return ("agg", "adt", "core::task::poll::Poll", 0, (v,))

def subterms(t):
    """all sub-terms of a term, itself included"""
    stack = [t]; seen = set()
    while stack:
        x = stack.pop()
        if not isinstance(x, tuple): continue
        try:
            if x in seen: continue
            seen.add(x)
        except TypeError:
            pass
        if x and isinstance(x[0], str): yield x
        stack.extend(y for y in x if isinstance(y, tuple))
def mentions(t, pred):
    return any(pred(x) for x in subterms(t))

def show(t, depth=6):
    if not isinstance(t, tuple) or not t: return repr(t)
    if not isinstance(t[0], str): return "<" + ",".join(show(x, depth - 1) for x in t) + ">" if depth else "…"
    if depth == 0: return "…"
    k = t[0]
    s = lambda x: show(x, depth - 1)
    if k == "int": return str(t[1])
    if k == "str": return repr(t[1])
    if k == "arg": return "arg%s" % (t[1],)
    if k == "lin":
        return "(" + " + ".join(([str(t[1])] if t[1] else []) + [("%s" % s(a) if c == 1 else "%d*%s" % (c, s(a))) for a, c in t[2]]) + ")"
    if k == "xor": return "(" + "^".join(s(x) for x in t[2]) + ("^%d" % t[1] if t[1] else "") + ")"
    if k == "fld": return "%s.%s%s" % (s(t[1]), "v%s." % t[2] if t[2] else "", t[3])
    if k == "deref": return "*" + s(t[1])
    if k == "&": return "&" + s(t[1])
    if k == "elem": return "%s[%s]" % (s(t[1]), s(t[2]))
    if k == "ret": return "ret#%s:%s" % (t[1], t[2].split("::")[-1])
    if k == "out": return "await#%s(%s)" % (t[1], s(t[2]))
    if k == "not": return "!" + s(t[1])
    if k == "eq": return "(%s == %s)" % (s(t[1]), s(t[2]))
    if k == "lt": return "(%s < %s)" % (s(t[1]), s(t[2]))
    if k == "op": return "%s(%s)" % (t[1], ", ".join(s(x) for x in t[2:]))
    if k == "call": return "%s%s(%s)" % ("::".join(t[1].split("::")[-2:]), ("<%s>" % t[2]) if t[2] else "", ", ".join(s(x) for x in t[3:]))
    if k == "const": return "%s<%s>" % (t[1].split("::")[-1], t[2])
    if k == "agg":
        n = (t[2] or t[1]).split("::")[-1]
        return "%s#%s{%s}" % (n, t[3], ", ".join(s(x) for x in t[4]))
    if k == "discr": return "discr(%s)" % s(t[1])
    return "(" + k + "".join(" " + (show(x, depth - 1) if isinstance(x, tuple) else str(x)) for x in t[1:]) + ")"
