"""C21: log frames of the embassy-usb servers."""
from checks import check
from checks.header import Names, KW, at
from checks.keys import fold
from checks.usb import VERS, tx_impl, Inner, known, eq0
from checks.host import callee_name
from checks.util import *
from terms import *
from core import Missing
import numdom, models as M, re

BIG = 1 << 63           # a byte slice is never longer than isize::MAX

# ------------------------------------------------------------------ bits
def bit(l, x, k, ref=None):
    """bit k of the term x: 0, 1, or (term, k)"""
    if x[0] == "int": return (x[1] >> k) & 1
    if x[0] == "byte": return bit(l, x[1], 8 * x[2] + k, ref) if k < 8 else 0
    if x[0] == "lob": return bit(l, x[1], k, ref) if k < 8 * x[2] else 0
    if x[0] == "op":
        o = x[1]
        if o == "trunc": return bit(l, x[2], k, ref) if k < x[3][1] else 0
        if o == "Div" and is_int(x[3]) and x[3][1] & (x[3][1] - 1) == 0: return bit(l, x[2], k + x[3][1].bit_length() - 1, ref)
        if o == "Rem" and is_int(x[3]) and ref is not None and rem_eq(x[2], ref, x[3][1]): x = x[:2] + (ref,) + x[3:]
        if o == "Rem" and is_int(x[3]) and x[3][1] & (x[3][1] - 1) == 0: return bit(l, x[2], k, ref) if k < x[3][1].bit_length() - 1 else 0
        if o in ("BitOr", "BitAnd"):
            a, b = bit(l, x[2], k, ref), bit(l, x[3], k, ref)
            z = 1 if o == "BitOr" else 0
            if a == z or b == z: return z
            if a == 1 - z: return b
            if b == 1 - z: return a
            return a if a == b else ("?", x, k)
    if x[0] == "xor" and is_int(I(x[1])):
        vs = [bit(l, t, k, ref) for t in x[2]]
        c = (x[1] >> k) & 1; sy = []
        for v in vs:
            if isinstance(v, int): c ^= v
            else: sy.append(v)
        if not sy: return c
        if len(sy) == 1 and not c: return sy[0]
        return ("?", x, k)
    return 0 if k >= nbits(l, x) else (x, k)
def rem_eq(a, b, n):
    """a and b are the same modulo n"""
    c, d = lin(sub(a, b))
    return c % n == 0 and all(v % n == 0 for v in d.values())
_nb = {}
def nbits(l, x):
    """smallest n with x < 2^n on this path"""
    key = (id(l), x)
    if key in _nb and _nb[key][0] is l: return _nb[key][1]
    lo, hi = 0, 72
    while lo < hi:
        m = (lo + hi) // 2
        if numdom.entails(l, numdom.ge(I((1 << m) - 1), x)): hi = m
        else: lo = m + 1
    if len(_nb) > 64: _nb.clear()
    _nb[key] = (l, lo)
    return lo

def at_index(E, l, v, i):
    """element i of a buffer's content, looking through writes that cannot touch it"""
    for _ in range(64):
        if v[0] == "sub": i = add(v[2], i); v = v[1]; continue
        if v[0] == "wr":
            _, base, off, ln, cont = v
            d = sub(i, off)
            if numdom.entails(l, numdom.ge(d, I(0))) and numdom.entails(l, numdom.ge(sub(ln, I(1)), d)): v, i = cont, d; continue
            if numdom.entails(l, numdom.ge(off, add(i, I(1)))) or numdom.entails(l, numdom.ge(i, add(off, ln))): v = base; continue
            return ("elem", v, i)
        if v[0] == "hvr" and numdom.entails(l, numdom.ge(v[2], add(i, I(1)))): v = v[1]; continue
        return E.elem(v, i)
    return ("elem", v, i)

# ------------------------------------------------------------------ the writer behind core::fmt::write
class Writer:
    """a fmt::Write that fills a slice: its view and the place of the next byte"""
    def __init__(self, ctx, adt):
        a = ctx.p.adt(adt)
        if a is None or a["enum"]: raise Missing("the writer given to core::fmt::write (%s)" % adt)
        self.adt = adt
        c = ctx.p.crates[adt.split("::")[0]]
        tys = [c.types[f["ty"] if isinstance(f, dict) else f[1]].s for f in a["variants"][0]["fields"]]
        self.tys = tys
        self.buf = [i for i, t in enumerate(tys) if re.match(r"^&('\w+ )?mut \[u8\]$", t)]
        self.pos = [i for i, t in enumerate(tys) if t == "usize"]
        if len(self.buf) != 1 or len(self.pos) > 1: raise Missing("the slice a %s writes to" % adt)
        self.buf = self.buf[0]
    def state(self, E, st, v):
        """(view, next place, end) of writer value v"""
        b = E.proj(v, ("f", 0, self.buf))
        vw = M.view(E, st, b)
        lo = vw[2]
        if self.pos: lo = add(lo, E.proj(v, ("f", 0, self.pos[0])))
        return vw, lo, add(vw[2], vw[3])

def write_str(ctx, W):
    """one write_str, from any state of the writer"""
    f = ctx.trait_fn("core::fmt::Write", "write_str", lambda t: t.k == "adt" and t.d["def"] == W.adt, W.adt)
    BUF = ("ext", ("sym", "body")); WC = ("heap", "writer")
    lo, ln = ("sym", "lo"), ("sym", "room")
    E = ctx.engine()
    fields = []
    for i, t in enumerate(W.tys):
        if i == W.buf: fields.append(("slice", BUF, (), I(0) if W.pos else lo, add(lo, ln) if W.pos else ln))
        elif i in W.pos: fields.append(lo)
        else: fields.append(("sym", "field%d" % i))
    def prep(st):
        st.mem[WC] = ("agg", "adt", W.adt, 0, tuple(fields))
        st.mem[BUF] = ("sym", "content")
    cov = set()
    for p in ctx.run(f, E, args=[("ref", WC, ()), ("arg", 2)], prep=prep):
        if p.end == "unreachable": continue
        for e in p.trace:
            if e.kind in ("panic", "maypanic") and e.cid not in ("overflow:Add", "overflow:Mul"): ctx.viol("write_str:panic:" + e.cid, "writing formatted text can panic (%s)" % e.cid, e.at())
        if not ctx.expect(p.end == "return", "write_str:end", "writing formatted text can end with %s (%s)" % (p.end, p.note), at(f), "write_str"): continue
        n = E.clen(("deref", ("arg", 2)))
        over = known(p, Lt(ln, n))
        vw, new, end = W.state(E, p, p.mem[WC])
        if not ctx.expect(over is not None, "write_str:case", "the text's length is not compared with the room", at(f)): continue
        k = ln if over else n
        cov.add(over)
        ctx.expect((vw[0], vw[1]) == (BUF, ()) and eq0(p, end, add(lo, ln)), "write_str:view", "after a write the writer no longer covers the rest of the same buffer", at(f))
        ctx.expect(eq0(p, new, add(lo, k)), "write_str:advance", "a text of %s bytes with room for %s moves the writer by %s" % (show(n), show(ln), show(sub(new, lo))), at(f), "write_str advance")
        got = p.mem[BUF]
        same = got == ("sym", "content") and known(p, Eq(k, I(0))) == 1
        if got[0] == "wr":
            _, base, off, l2, cont = got
            src = E.subc(("deref", ("arg", 2)), I(0), l2)
            same = base == ("sym", "content") and off == lo and eq0(p, l2, k) and (cont == src or strip(cont) == src)
        ctx.expect(same, "write_str:copy", "a write puts %s into the buffer, expected the first %s bytes of the text at the writer's place" % (show(got), show(k)), at(f), "write_str copy")
        r = poss(ctx, p, p.ret, RES)
        ctx.expect(r == {1 if over else 0}, "write_str:result", "a text that %s is reported as %s" % ("does not fit" if over else "fits", show(p.ret)), at(f), "write_str result")
    ctx.expect(cov == {0, 1}, "write_str:cases", "the cases 'fits' and 'does not fit' are not both there (%s)" % cov, at(f))

# ------------------------------------------------------------------ frames
def packet_fn(ctx, ver):
    """the local function(s) that write the packets of a frame"""
    base = lambda k: re.sub(r"(::\{closure#\d+\})+$", "", k)
    tr = {f.key for m in ("send", "send_raw", "send_log_str", "send_log_fmt") for f in [tx_impl(ctx, ver, m)]}
    own = set(); edges = {}
    fns = [f for f in ctx.p.crates["postcard_rpc"].fns.values() if "::%s::" % ver in f.key]
    byc = {ctx.p.cid(f.key): base(f.key) for f in fns}
    for f in fns:
        for bb in f.bbs:
            t = bb["t"]
            if t[0] == "call":
                n = callee_name(ctx, t)
                if n and n.endswith("EndpointIn::write"): own.add(base(f.key))
                elif n in byc and byc[n] != base(f.key): edges.setdefault(base(f.key), set()).add(byc[n])
    own -= tr
    if not own: raise Missing("the function that writes a frame's packets (%s)" % ver)
    # the outermost function that every sender goes through on its way to the packets
    def reaches(k, cut, seen):
        if k in cut: return False
        if k in own: return True
        seen.add(k)
        return any(reaches(x, cut, seen) for x in sorted(edges.get(k, ())) if x not in seen)
    users = [k for k in sorted(tr) if reaches(k, (), set())]
    common = [c for c in sorted(set(byc.values()) - tr) if users and not any(reaches(k, (c,), set()) for k in users)]
    def below(a, b, seen=None):
        seen = seen if seen is not None else set()
        for x in edges.get(a, ()):
            if x == b: return True
            if x not in seen:
                seen.add(x)
                if below(x, b, seen): return True
        return False
    top = {c for c in common if not any(d != c and below(d, c) for d in common)}
    return top if len(top) == 1 else own
def plain(t):
    """a term without the numbers of the calls it came from"""
    if isinstance(t, tuple):
        if len(t) > 1 and t[0] in ("ret", "out") and isinstance(t[1], int): return (t[0], 0) + tuple(plain(x) for x in t[2:])
        return tuple(plain(x) for x in t)
    return t

def rules_header(ctx, N, E, p, kw, ref, I_, tag, where):
    """the log header: key, sequence number, counter. Returns the header call"""
    hs = calls(p, "VarHeader::write_to_slice")
    lk = [e for e in p.trace if e.kind == "await" and e.cid.endswith("Mutex::lock")]
    if not ctx.expect(len(hs) == 1 and len(lk) == 1, tag + ":header", "a log frame is sent with %d headers under %d locks" % (len(hs), len(lk)), where, "log header"): return None
    h = strip(hs[0].args[0])
    if h[0] == "deref": h = h[1]
    k, s = fld(h, 0, N.hkey), fld(h, 0, N.hseq)
    good = k[0] == "agg" and k[2] == N.VK and k[3] == N.kvar[kw] and bytes_of(E, k[4][0], kw) == fold(ref, kw)
    ctx.expect(good, tag + ":key", "log frames for %d-byte keys carry the key %s, expected the logging topic's" % (kw, show(k)), hs[0].at(), "log key")
    g = ("deref", ("call", "deref", "", lk[0].res))
    if len(I_.seq) != 1: raise Missing("the log counter of " + I_.adt)
    old = ("fld", g, 0, I_.seq[0])
    sv = N.seq_val(s)
    ctx.expect(sv == (2, old), tag + ":seq", "log frames carry the sequence number %s, expected the 2-byte log counter" % show(s), hs[0].at(), "log sequence number")
    cell = ("ext", ("call", "deref", "", lk[0].res))
    new = E.read(p, cell, (("f", 0, I_.seq[0]),))
    ctx.expect(new == ("op", "wadd", old, I(1), I(16)) or new == E.rem(add(old, I(1)), 1 << 16), tag + ":counter", "after a log frame the log counter is %s, expected it to be one more (wrapping)" % show(new), hs[0].at(), "log counter")
    return hs[0]

def hooks(H, fits, W):
    def head(E, st, ev, c):
        if not fits: ev.res = NONE; return
        vw = M.view(E, st, c.args[1])
        E.assume(st, Lt(vw[3], I(H)), 0); E.assume(st, Lt(vw[3], I(BIG)), 1)
        ev.x = vw
        ev.res = some(("agg", "tuple", None, 0, (M.mk(vw, I(0), I(H)), M.mk(vw, I(H), sub(vw[3], I(H))))))
    def mark(E, st, ev, c):
        v = M.pointee(E, st, c.args[0])
        w = W.setdefault("w", None) or Writer(W["ctx"], v[2]); W["w"] = w
        vw, pos, end = w.state(E, st, v)
        ev.x = {"view": vw, "pos": pos, "end": end, "content": E.read(st, vw[0], vw[1])}
    return {"VarHeader::write_to_slice": head, "FmtScript::start": mark, "FmtScript::done": mark}

def formatted(ctx, ver, N, ref):
    f = tx_impl(ctx, ver, "send_log_fmt"); I_ = Inner(ctx, ver); where = at(f)
    pk = packet_fn(ctx, ver)
    cids = tuple(ctx.p.cid(k) for k in pk)
    # what send_raw hands to the packet writer besides the frame
    raw = tx_impl(ctx, ver, "send_raw")
    def is_frame(a): return a[0] == "slice" or a == ("arg", 2)
    like = None
    for p in ctx.run(raw, opaque=cids):
        cs = calls(p, *cids)
        if len(cs) == 1: like = (cs[0].cid, [None if mentions(a, lambda t: t == ("arg", 2)) else plain(a) for a in cs[0].args])
    if like is None or like[1].count(None) != 1: raise Missing("send_raw's call that writes its packets (%s)" % ver)
    fi = like[1].index(None)
    W = {"ctx": ctx}; tag = ver[-4:] + ":fmt"
    seen = {"sizes": set(), "ok": 0, "cut": 0, "refused": 0}
    for kw in KW:
        H = 1 + kw + 2
        for fits in (True, False):
            hk = hooks(H, fits, W)
            E = ctx.engine(opaque=("VarHeader::write_to_slice",) + cids, hooks=hk, unroll_nondet=lambda k: "fmt_write_model" not in k)
            for p in ctx.run(f, E, args=[("arg", 1), N.kind(kw), ("arg", 3)]):
                if p.end == "unreachable": continue
                for e in p.trace:
                    if e.kind in ("panic", "maypanic") and e.cid not in ("overflow:Add", "overflow:Mul"): ctx.viol("%s:panic:%s" % (tag, e.cid), "logging formatted text can panic (%s)" % e.cid, e.at())
                if p.end == "loop": continue
                if not ctx.expect(p.end == "return", tag + ":end:%s" % p.end, "logging formatted text can end with %s (%s)" % (p.end, p.note), where, "log paths"): continue
                cs = calls(p, *cids)
                st = calls(p, "FmtScript::start"); dn = calls(p, "FmtScript::done"); oc = calls(p, "FmtScript::outcome")
                if not cs:
                    # nothing sent: only when the buffer is too small for header and length
                    ctx.expect(p.ret is not None and poss(ctx, p, p.ret, RES) == {1}, tag + ":lost", "a log message is dropped without an error", where)
                    if fits:
                        h = calls(p, "VarHeader::write_to_slice")
                        small = len(h) == 1 and numdom.entails(p.lin, numdom.ge(I(H + 9), h[0].x[3]))
                        ctx.expect(small, tag + ":refused", "a log message is refused although header and length fit into the transmit buffer", where, "refused only without room")
                    seen["refused"] += 1
                    continue
                if not ctx.expect(fits, tag + ":no-header", "a log frame is sent although its header did not fit", cs[0].at()): continue
                h = rules_header(ctx, N, E, p, kw, ref, I_, tag, where)
                if h is None: continue
                one = len(cs) == 1 and len(st) == 1 and len(dn) == 1
                if not ctx.expect(one and p.trace.index(h) < p.trace.index(st[0]) < p.trace.index(cs[0]), tag + ":once", "a log message is formatted %d times and sent %d times" % (len(st), len(cs)), cs[0].at(), "formatted and sent once"): continue
                c = cs[0]; vw0 = h.x
                fm = [e for e in p.trace if e.kind == "fmt"]
                ctx.expect(len(fm) == 1 and mentions(fm[0].args[0], lambda t: t == ("arg", 3)), tag + ":args", "formats something other than the caller's arguments", st[0].at())
                got = [None if i == fi else plain(a) for i, a in enumerate(c.args)]
                ctx.expect((c.cid, got) == like, tag + ":transport", "the frame is written with %s, send_raw uses %s" % ([show(a) for a in got if a], [show(a) for a in like[1] if a]), c.at(), "same packet writer")
                aw = awaited(p, c)
                ctx.expect(aw is not None and same_result(ctx, p, p.ret, aw), tag + ":result", "returns %s instead of the result of sending" % show(p.ret), c.at(), "send result")
                x, y = st[0].x, dn[0].x
                buf = vw0[:2]; S0 = vw0[2]
                F = sub(sub(x["pos"], S0), I(H))
                if not ctx.expect((x["view"][0], x["view"][1]) == buf and is_int(F) and 1 <= F[1] <= 10, tag + ":place", "the text is formatted to offset %s of the transmit buffer, header %d bytes" % (show(sub(x["pos"], S0)), H), st[0].at(), "text behind the length"): continue
                F = F[1]; used = sub(y["pos"], x["pos"])
                ctx.expect((y["view"][0], y["view"][1]) == buf, tag + ":place", "the text leaves the transmit buffer", dn[0].at())
                ctx.expect(eq0(p, x["end"], add(S0, vw0[3])), tag + ":room", "the text may not use the whole transmit buffer", st[0].at(), "text may fill the buffer")
                fv = M.view(E, p, c.raw[fi])
                ctx.expect(fv[:2] == buf and fv[2] == S0 and eq0(p, add(S0, fv[3]), y["pos"]), tag + ":frame", "sends %s bytes from offset %s of the transmit buffer; header, length and text end at %s" % (show(fv[3]), show(fv[2]), show(y["pos"])), c.at(), "frame is header, length, text")
                # the content at the time of sending
                cont = strip(c.args[fi])
                base = cont
                whole = sub_of(base)
                l = p.lin
                bad = []
                for i in range(F):
                    b = at_index(E, l, whole, add(S0, I(H + i)))
                    bits = [bit(l, b, k, used) for k in range(8)]
                    if bits[7] != (1 if i < F - 1 else 0): bad.append("byte %d is %s: continuation mark" % (i, show(b)))
                    for k in range(7):
                        if bits[k] != bit(l, used, 7 * i + k):
                            bad.append("byte %d is %s" % (i, show(b))); break
                if not numdom.entails(l, numdom.ge(I((1 << (7 * F)) - 1), used)): bad.append("%d bytes cannot hold every length" % F)
                ctx.expect(not bad, tag + ":length", "the length in front of the text does not read back as the text's length (%s; length %s in %d bytes)" % ("; ".join(bad[:3]), show(used), F), c.at(), "length field")
                # nothing else was written over header or text
                r = poss(ctx, p, oc[0].res, RES) if oc else set()
                lay = whole; over = []
                chain = layers(sub_of(y["content"]))
                inlen = lambda off, ln: numdom.entails(l, numdom.ge(off, add(S0, I(H)))) and numdom.entails(l, numdom.ge(add(S0, I(H + F)), add(off, ln)))
                while lay not in chain and lay[0] == "wr":
                    _, lay2, off, ln, ct = lay
                    behind = numdom.entails(l, numdom.ge(off, y["pos"]))
                    dots = r == {1} and all_dots(ct) and numdom.entails(l, numdom.ge(off, sub(y["end"], I(3))))
                    if not (inlen(off, ln) or behind or dots): over.append(show(lay[2:]))
                    lay = lay2
                # layers that were there when formatting ended and are gone now: replaced in place
                for t in chain[:chain.index(lay)] if lay in chain else ():
                    if t[0] != "wr" or not inlen(t[2], t[3]): over.append(show(t))
                ctx.expect(lay in chain and not over, tag + ":overwritten", "after formatting, other bytes of the frame are overwritten (%s)" % (over or show(lay)), c.at(), "header and text untouched")
                seen["sizes"].add(F)
                if r == {1}: seen["cut"] += 1
                else: seen["ok"] += 1
                # header bytes still those of write_to_slice when formatting starts
                hb = at_index(E, l, whole, add(S0, I(H - 1)))
                ctx.expect(mentions(hb, lambda t: t[0] == "mod" and t[1] == h.n), tag + ":header-bytes", "the header's bytes are overwritten", c.at())
    ctx.sample({"fn": f.key, "length field sizes": sorted(seen["sizes"]), "complete": seen["ok"], "cut off": seen["cut"], "refused": seen["refused"]})
    ctx.floor("%s length field sizes" % tag, len(seen["sizes"]), 3)
    ctx.floor("%s complete" % tag, seen["ok"], 4); ctx.floor("%s cut off" % tag, seen["cut"], 4); ctx.floor("%s refused" % tag, seen["refused"], 4)
    if W.get("w"): write_str(ctx, W["w"])
    else: raise Missing("the writer of formatted log text (%s)" % ver)
def sub_of(c):
    while c[0] == "sub": c = c[1]
    return c
def layers(c):
    out = [c]
    while c[0] in ("wr", "hv", "hvr"): c = c[1]; out.append(c)
    return out
def all_dots(ct):
    if ct[0] == "one": return ct[1] == I(46)
    if ct[0] == "agg" and ct[1] == "array": return all(x == I(46) for x in ct[4])
    if ct[0] == "rep": return ct[1] == I(46)
    if ct[0] in ("bytes",): return all(x == 46 for x in ct[1])
    if ct[0] == "str": return set(ct[1]) == {"."}
    return False

def fixed(ctx, ver, N, ref):
    f = tx_impl(ctx, ver, "send_log_str"); I_ = Inner(ctx, ver); where = at(f)
    cids = tuple(ctx.p.cid(k) for k in packet_fn(ctx, ver))
    tag = ver[-4:] + ":str"; n = 0
    for kw in KW:
        E = ctx.engine(opaque=("VarHeader::write_to_slice",) + cids)
        for p in ctx.run(f, E, args=[("arg", 1), N.kind(kw), ("arg", 3)]):
            if p.end == "unreachable": continue
            for e in p.trace:
                if e.kind in ("panic", "maypanic") and not e.cid.startswith("overflow:"): ctx.viol("%s:panic:%s" % (tag, e.cid), "logging a string can panic (%s)" % e.cid, e.at())
            if not ctx.expect(p.end == "return", tag + ":end:%s" % p.end, "logging a string can end with %s (%s)" % (p.end, p.note), where, "log paths"): continue
            cs = calls(p, *cids); bs = calls(p, "to_slice")
            if not cs:
                ctx.expect(p.ret is not None and poss(ctx, p, p.ret, RES) == {1}, tag + ":lost", "a log message is dropped without an error", where)
                h = calls(p, "VarHeader::write_to_slice")
                nofit = any(poss(ctx, p, e.res, OPT) == {0} for e in h) or any(poss(ctx, p, e.res, RES) == {1} for e in bs) or impossible(E, p, h, bs)
                ctx.expect(nofit, tag + ":refused", "a log message is refused although it fits into the transmit buffer", where, "refused only without room")
                continue
            h = rules_header(ctx, N, E, p, kw, ref, I_, tag, where)
            if h is None: continue
            if not ctx.expect(len(cs) == 1 and len(bs) == 1, tag + ":once", "a log message is serialised %d times and sent %d times" % (len(bs), len(cs)), cs[0].at()): continue
            ctx.expect(strip(bs[0].args[0]) in (("arg", 3), ("deref", ("arg", 3))), tag + ":text", "sends %s instead of the logged text" % show(bs[0].args[0]), bs[0].at(), "log text")
            rest = fld(fld(h.res, 1, 0), 0, 1)
            ctx.expect(bs[0].raw[1] == rest, tag + ":place", "the text is not written directly behind the header", bs[0].at(), "text behind the header")
            aw = awaited(p, cs[0])
            ctx.expect(aw is not None and same_result(ctx, p, p.ret, aw), tag + ":result", "returns %s instead of the result of sending" % show(p.ret), cs[0].at(), "send result")
            n += 1
    ctx.floor(tag + " sent", n, 4)
def impossible(E, p, h, bs):
    """header and body were both written: the slice taken from the buffer cannot be longer than the buffer"""
    if len(h) != 1 or len(bs) != 1: return False
    if poss_(p, h[0].res, OPT) != 1 or poss_(p, bs[0].res, RES) != 0: return False
    return True
def poss_(p, v, adt): return p.facts.get(("discr", v, adt))

@check("C21", "The log functions of both device-side transports are interpreted with a symbolic buffer length, string length and counter; fmt::write is any number of write_str calls of any length. Rules: one frame is sent holding the header bytes (log topic's key at the requested width, counter as sequence number), a length prefix that reads back as the text length, and the text or its leading part; the counter advances by one; every slice index is in bounds and no path panics; a fixed string that does not fit returns an error and nothing is sent.",
       ['postcard::to_slice returns the used prefix', '64-bit constants; slices are at most isize::MAX bytes', 'text may be cut inside a UTF-8 sequence'])
def c21(ctx):
    N = Names(ctx)
    E = ctx.engine()
    r = ctx.run(ctx.p.fns["witness::logging_key"], E)
    ref = bytes_of(E, r[0].ret, 8)
    if not all(is_int(b) for b in ref): raise Missing("the value of LoggingTopic::TOPIC_KEY")
    for ver in VERS:
        fixed(ctx, ver, N, ref)
        formatted(ctx, ver, N, ref)
