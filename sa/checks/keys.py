"""C03 (key folds) and C04 (comparison and resizing across widths)."""
from itertools import product
from checks import check
from checks.header import Names, KW, SW, at, panics, sbyte
from terms import *
from models import byte, canonbyte
from core import Missing

KEYTY = {"postcard_schema::key::Key": 8, "postcard_rpc::Key4": 4, "postcard_rpc::Key2": 2, "postcard_rpc::Key1": 1}

def fold(bs, w):
    """the fold: group the bytes of the wider key in order and xor each group"""
    g = len(bs) // w
    out = []
    for i in range(w):
        x = I(0)
        for b in bs[i * g:(i + 1) * g]: x = xor(x, b)
        out.append(x)
    return tuple(out)

def kval(N, w, tag):
    """(value of the plain key type of width w, bytes)"""
    v, bs = N.mkkey(w, tag)
    return v[4][0], bs
def kbytes(E, v, w):
    if w == 8:
        if v[0] == "call" and v[1].endswith("Key::from_bytes"): return tuple(canonbyte(E.elem(v[3], I(n))) for n in range(8))
        return tuple(("elem", ("kb", v), I(n)) for n in range(8))
    x = E.proj(v, ("f", 0, 0))
    if w == 1: return (canonbyte(x),)
    return tuple(canonbyte(E.elem(x, I(n))) for n in range(w))

def sig(f):
    """(argument type strings, return type string) of a body"""
    c = f.crate
    return [c.types[f.locals[i + 1]].s for i in range(f.argc)], c.types[f.locals[0]].s

def folds(ctx, N):
    """every function from one key type to a narrower one, whatever its name"""
    n = 0
    seen = set()
    for f in ctx.p.crates["postcard_rpc"].fns.values():
        a, r = sig(f)
        if len(a) != 1 or r not in KEYTY or KEYTY[r] == 8: continue
        at_ = a[0].lstrip("&")
        if at_ not in KEYTY: continue
        d = ctx.p.defs.get(f.key, {})
        if d.get("name") == "clone" or d.get("impl_trait", "").endswith("Clone"): continue
        wi, wo = KEYTY[at_], KEYTY[r]
        v, bs = kval(N, wi, "k")
        E = ctx.engine()
        def prep(st): st.mem[("heap", "k")] = v
        name = ctx.p.cid(f.key) + "<%s>" % at_
        for p in ctx.run(f, E, args=[v if not a[0].startswith("&") else ("ref", ("heap", "k"), ())], prep=prep):
            panics(ctx, p, name, at(f))
            if p.end != "return": continue
            if wo > wi:
                ctx.viol("widen:" + name, "%s produces a %d-byte key from a %d-byte key" % (name, wo, wi), at(f)); continue
            got = kbytes(E, p.ret, wo)
            ctx.expect(got == fold(bs, wo), "fold:" + name, "%s computes %s, the fold is %s" % (name, [show(x) for x in got], [show(x) for x in fold(bs, wo)]), at(f), "fold function")
            ctx.sample({"fn": name, "result": [show(x) for x in got]})
        n += 1; seen.add((wi, wo))
    ctx.floor("fold functions", n, 10)
    for pr in ((8, 4), (8, 2), (8, 1), (4, 2), (4, 1), (2, 1)):
        if pr not in seen: ctx.viol("no-fold:%d->%d" % pr, "no function shortens %d-byte keys to %d bytes" % pr)

def tries(ctx, N):
    """&VarKey -> Option/Result<KeyN>: fails exactly for narrower keys, folds wider ones"""
    n = 0
    for f in ctx.p.crates["postcard_rpc"].fns.values():
        a, r = sig(f)
        if a not in (["&postcard_rpc::header::VarKey"], ["postcard_rpc::header::VarKey"]): continue
        wo = None
        for t, w in KEYTY.items():
            if r in ("core::option::Option<%s>" % t, "std::option::Option<%s>" % t, "core::result::Result<%s, postcard_rpc::TooSmall>" % t, "std::result::Result<%s, postcard_rpc::TooSmall>" % t): wo = w
        if wo is None: continue
        n += 1
        isopt = "option::Option" in r
        name = ctx.p.cid(f.key) + "->Key%d" % wo
        for wi in KW:
            v, bs = N.mkkey(wi)
            E = ctx.engine()
            def prep(st): st.mem[("heap", "k")] = v
            for p in ctx.run(f, E, args=[("ref", ("heap", "k"), ()) if a[0].startswith("&") else v], prep=prep):
                panics(ctx, p, name, at(f))
                if p.end != "return": continue
                good = p.ret[0] == "agg" and p.ret[3] == (1 if isopt else 0)
                if wi < wo:
                    ctx.expect(not good and p.ret[0] == "agg", "tryfrom:%s:%d" % (name, wi), "%s yields %s for a %d-byte key" % (name, show(p.ret), wi), at(f), "no widening")
                else:
                    got = kbytes(E, p.ret[4][0], wo) if good else None
                    ctx.expect(got == fold(bs, wo), "tryfrom:%s:%d" % (name, wi), "%s yields %s for a %d-byte key" % (name, show(p.ret), wi), at(f), "try-fold")
    ctx.floor("fallible conversions", n, 7)

def shrink(ctx, N):
    f = ctx.inherent("header::VarKey", "shrink_to")
    for wi, wo in product(KW, KW):
        v, bs = N.mkkey(wi)
        E = ctx.engine()
        def prep(st): st.mem[("heap", "k")] = v
        for p in ctx.run(f, E, args=[("ref", ("heap", "k"), ()), N.kind(wo)], prep=prep):
            panics(ctx, p, "shrink_to", at(f))
            if p.end != "return": continue
            got = N.key_bytes(E, p.mem[("heap", "k")])
            w = min(wi, wo)
            ctx.expect(got == (w, fold(bs, w)), "shrink_to:%d->%d" % (wi, wo), "shrink_to(%d bytes) leaves a %d-byte key as %s" % (wo, wi, show(p.mem[("heap", "k")], 8)), at(f), "shrink_to")
    f = ctx.inherent("header::VarKey", "kind")
    for wi in KW:
        v, bs = N.mkkey(wi)
        def prep(st): st.mem[("heap", "k")] = v
        E = ctx.engine()
        for p in ctx.run(f, E, args=[("ref", ("heap", "k"), ())], prep=prep):
            ctx.expect(p.ret == N.kind(wi), "kind:%d" % wi, "kind() of a %d-byte key is %s" % (wi, show(p.ret) if p.ret else p.end), at(f), "kind")

def consts(ctx, N):
    """provided *_KEY{1,2,4} constants of the Endpoint and Topic traits"""
    n = 0
    for f in ctx.p.crates["postcard_rpc"].fns.values():
        d = ctx.p.defs.get(f.key, {})
        if d.get("kind") != "AssocConst" or "trait" not in d: continue
        r = sig(f)[1]
        if r not in KEYTY or KEYTY[r] == 8: continue
        w = KEYTY[r]; full = d["name"].rstrip("0123456789")
        E = ctx.engine()
        for p in ctx.run(f, E):
            ret = p.ret
            src = [t for t in subterms(ret) if t[0] == "const"] if ret else []
            src = [t for t in src if t[1].endswith("::" + full)]
            got = kbytes(E, ret, w) if ret else None
            okc = bool(src) and got == fold(tuple(("elem", ("kb", src[0]), I(i)) for i in range(8)), w)
            ctx.expect(okc, "const:" + ctx.p.cid(f.key), "%s is %s, expected the fold of %s" % (f.key, show(ret, 8) if ret else p.end, full), at(f), "derived key constant")
        n += 1
    ctx.floor("derived key constants", n, 9)

def to_bytes(ctx, N):
    for w in (1, 2, 4):
        f = ctx.inherent("postcard_rpc::Key%d" % w, "to_bytes")
        v, bs = kval(N, w, "k")
        E = ctx.engine()
        def prep(st): st.mem[("heap", "k")] = v
        a = sig(f)[0][0]
        for p in ctx.run(f, E, args=[("ref", ("heap", "k"), ()) if a.startswith("&") else v], prep=prep):
            r = p.ret
            got = tuple(E.elem(r, I(i)) for i in range(w)) if r and r[0] == "agg" and r[1] == "array" else ((r,) if w == 1 else None)
            ctx.expect(got == bs, "to_bytes:%d" % w, "Key%d::to_bytes yields %s" % (w, show(r) if r else p.end), at(f), "to_bytes")

@check("C03", "Every function in the crate that maps one key type to another is found by its type signature and abstractly interpreted with symbolic key bytes in an XOR-set domain; each result byte must be the XOR of exactly its group of the wider key's bytes, so all routes (direct, via an intermediate width, constants, in-place shrinking, fallible conversions) agree. Narrower-to-wider requests must fail on every path. Exhaustive over the 4x4 width combinations.",
       ["postcard_schema Key::to_bytes/from_bytes are inverse byte copies"])
def c03(ctx):
    N = Names(ctx)
    folds(ctx, N); tries(ctx, N); shrink(ctx, N); consts(ctx, N); to_bytes(ctx, N)

# ------------------------------------------------------------------ C04
class Undecided(Exception): pass
def ev(t, env):
    """truth value of a boolean term under an assignment of the atoms"""
    if t in env: return env[t]
    if t[0] == "int": return bool(t[1])
    if t[0] == "not": return not ev(t[1], env)
    if t[0] == "op" and t[1] == "And": return ev(t[2], env) and ev(t[3], env)
    if t[0] == "eq":
        a, b = t[1], t[2]
        if a[0] == "agg" and b[0] == "agg" and len(a[4]) == len(b[4]) and a[1:4] == b[1:4]:
            return all(ev(Eq(x, y), env) for x, y in zip(a[4], b[4]))
        for x, y in ((a, b), (b, a)):
            if x[0] == "int" and x[1] in (0, 1) and y[0] in ("eq", "not", "op"):
                return ev(y, env) == bool(x[1])
    raise Undecided(show(t))
def truth_table(ctx, ps, atoms, key, what, where, extra=None):
    """on every path, for every assignment of the atoms consistent with it, the result must be the conjunction"""
    for p in ps:
        if p.end != "return":
            if p.end not in ("unreachable",): ctx.viol(key + ":end", "%s ends with %s" % (what, p.end), where)
            continue
        for vals in product((False, True), repeat=len(atoms)):
            env = dict(zip(atoms, vals))
            if extra: extra(env, vals)
            try:
                if not all(ev(t, env) == bool(v) for t, v in p.facts.items() if t[0] in ("eq", "not", "op", "lt") and not (t[0] == "op" and t[1] != "And")): continue
                got = ev(p.ret, env)
            except Undecided as e:
                ctx.viol(key, "%s depends on %s" % (what, e), where); return
            ctx.cov["obligations"] += 1
            if got != all(vals):
                ctx.viol(key, "%s answers %s when %s" % (what, got, ", ".join("%s is %s" % (show(a), v) for a, v in zip(atoms, vals))), where); return

def key_atoms(N, w1, w2):
    v1, b1 = N.mkkey(w1, "a"); v2, b2 = N.mkkey(w2, "b")
    w = min(w1, w2)
    f1, f2 = fold(b1, w), fold(b2, w)
    atoms = [Eq(x, y) for x, y in zip(f1, f2)]
    def extra(env, vals):
        if w1 == w2 == 8: env[Eq(v1[4][0], v2[4][0])] = all(vals); env[Eq(("kb", v1[4][0]), ("kb", v2[4][0]))] = all(vals)
    return v1, v2, atoms, extra

@check("C04", "Abstract interpretation of the hand-written and derived equality functions and of resize/Into for every pair of widths with symbolic contents; the boolean result of every path is compared with the specified conjunction of byte equalities by a complete truth table over those equalities, and resized values are compared byte-wise with the low-order bytes of the input.",
       ["array and integer equality of the standard library is element-wise"])
def c04(ctx):
    N = Names(ctx)
    isT = lambda s: (lambda t: t.s == s)
    f = ctx.trait_fn("cmp::PartialEq", "eq", isT(N.VK), N.VK)
    n = 0
    for w1, w2 in product(KW, KW):
        v1, v2, atoms, extra = key_atoms(N, w1, w2)
        def prep(st): st.mem[("heap", "a")] = v1; st.mem[("heap", "b")] = v2
        ps = ctx.run(f, args=[("ref", ("heap", "a"), ()), ("ref", ("heap", "b"), ())], prep=prep)
        truth_table(ctx, ps, atoms, "VarKey::eq:%d,%d" % (w1, w2), "VarKey equality of %d- and %d-byte keys" % (w1, w2), at(f), extra)
        for p in ps: panics(ctx, p, "VarKey::eq", at(f))
        n += 1; ctx.rule("key equality")
    f = ctx.trait_fn("cmp::PartialEq", "eq", isT(N.VS), N.VS)
    for w1, w2 in product(SW, SW):
        v1, s1 = N.mkseq(w1, "a"); v2, s2 = N.mkseq(w2, "b")
        def prep(st): st.mem[("heap", "a")] = v1; st.mem[("heap", "b")] = v2
        ps = ctx.run(f, args=[("ref", ("heap", "a"), ()), ("ref", ("heap", "b"), ())], prep=prep)
        truth_table(ctx, ps, [Eq(s1, s2)], "VarSeq::eq:%d,%d" % (w1, w2), "equality of %d- and %d-byte sequence numbers" % (w1, w2), at(f))
        ctx.rule("sequence equality")
    f = ctx.trait_fn("cmp::PartialEq", "eq", isT(N.VH), N.VH)
    for w1, w2, u1, u2 in [(a, b, 1, 4) for a, b in product(KW, KW)] + [(1, 8, a, b) for a, b in product(SW, SW)]:
        v1, v2, atoms, extra = key_atoms(N, w1, w2)
        q1, s1 = N.mkseq(u1, "a"); q2, s2 = N.mkseq(u2, "b")
        def mk(k, s):
            x = [None, None]; x[N.hkey] = k; x[N.hseq] = s
            return ("agg", "adt", N.VH, 0, tuple(x))
        def prep(st): st.mem[("heap", "a")] = mk(v1, q1); st.mem[("heap", "b")] = mk(v2, q2)
        def extra2(env, vals):
            if w1 == w2 == 8: extra(env, vals[:-1])
        ps = ctx.run(f, args=[("ref", ("heap", "a"), ()), ("ref", ("heap", "b"), ())], prep=prep)
        truth_table(ctx, ps, atoms + [Eq(s1, s2)], "VarHeader::eq:%d,%d,%d,%d" % (w1, w2, u1, u2), "header equality", at(f), extra2)
    f = ctx.inherent("header::VarSeq", "resize")
    for w1, w2 in product(SW, SW):
        v1, s1 = N.mkseq(w1, "a")
        def prep(st): st.mem[("heap", "a")] = v1
        for p in ctx.run(f, args=[("ref", ("heap", "a"), ()), N.skind(w2)], prep=prep):
            panics(ctx, p, "resize", at(f))
            if p.end != "return": continue
            got = N.seq_val(p.mem[("heap", "a")])
            okv = got is not None and got[0] == w2 and low(got[1], w2) == low(s1, w2, w1)
            ctx.expect(okv, "resize:%d->%d" % (w1, w2), "resize of a %d-byte sequence number to %d bytes leaves %s" % (w1, w2, show(p.mem[("heap", "a")])), at(f), "resize")
    # conversions to and from integers
    WT = {"u8": 1, "u16": 2, "u32": 4}
    n = 0
    for f in ctx.p.fns.values():
        a, r = sig(f)
        if len(a) != 1: continue
        if a[0] in WT and r == N.VS:
            for p in ctx.run(f, args=[("sym", "n")]):
                got = N.seq_val(p.ret)
                ctx.expect(got == (WT[a[0]], ("sym", "n")), "from:" + a[0], "VarSeq::from(%s) yields %s" % (a[0], show(p.ret)), at(f), "integer conversion")
            n += 1
        if a[0] == N.VS and r in WT:
            for w in SW:
                v, s = N.mkseq(w)
                for p in ctx.run(f, args=[v]):
                    ctx.expect(p.ret is not None and low(p.ret, WT[r]) == low(s, WT[r], w), "into:%s:%d" % (r, w), "Into<%s> of a %d-byte sequence number yields %s" % (r, w, show(p.ret) if p.ret else p.end), at(f), "integer conversion")
            n += 1
    ctx.floor("integer conversions", n, 6)
    ctx.floor("key equality", ctx.cov["rules"].get("key equality", 0), 16)
    ctx.floor("resize", ctx.cov["rules"].get("resize", 0), 9)

def low(v, w, vw=None):
    """low w bytes of a value; symbols carry their width in bytes as the last digit of their name"""
    out = []
    for i in range(w):
        b = byte(v, i)
        if b[0] == "byte" and b[1][0] == "sym" and b[1][1][-1].isdigit() and b[2] >= int(b[1][1][-1]): b = I(0)
        out.append(b)
    return out
