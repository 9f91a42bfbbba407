"""C18: COBS framing over a serial stream."""
from checks import check
from checks.header import at
from checks.usb import known, eq0, P2, POS
from checks.util import *
from terms import *
from core import Missing
import numdom, models as M, re

BIG = (1 << 63) - 1          # no slice or array is longer than isize::MAX
SELF = ("ext", ("arg", 1)); INP = ("ext", ("arg", 2))
MIN = 3                      # discriminants, a one byte key, a one byte sequence number

# ------------------------------------------------------------------ the accumulator
class Acc:
    def __init__(self, ctx):
        self.adt = find_adt(ctx, "accumulator::raw::CobsAccumulator")
        self.res = find_adt(ctx, "accumulator::raw::FeedResult")
        a = ctx.p.adt(self.adt); c = ctx.p.crates["postcard_rpc"]
        tys = [c.types[f[1]] for f in a["variants"][0]["fields"]]
        buf = [i for i, t in enumerate(tys) if t.k == "array"]
        idx = [i for i, t in enumerate(tys) if t.s == "usize"]
        if len(buf) != 1 or len(idx) != 1: raise Missing("the buffer and the fill level of CobsAccumulator")
        self.buf, self.idx = buf[0], idx[0]; self.n = len(tys)
        f = ctx.inherent("CobsAccumulator", "new")
        ps = [p for p in ctx.run(f) if p.end == "return"]
        if len(ps) != 1 or ps[0].ret[0] != "agg": raise Missing("CobsAccumulator::new")
        self.new = ps[0].ret[4]
        if self.new[self.buf][0] != "rep": raise Missing("the size of the accumulator's buffer")
        self.cap = self.new[self.buf][2]
        ctx.expect(self.new[self.idx] == I(0), "new", "a new accumulator is not empty", at(f))
        self.v = {n: variant_index(ctx, self.res, n) for n in ("Consumed", "OverFull", "DeserError", "Success")}
        self.dat = [f[0] for f in ctx.p.adt(self.res)["variants"][self.v["Success"]]["fields"]].index("data")
    def fields(self, idx): return {i: (idx if i == self.idx else self.new[i]) for i in range(self.n) if i != self.buf}

class Feed:
    """the paths of one feed, from one class of accumulator states"""
    def __init__(self, ctx, A, f, state, lin, length=None):
        self.A = A; self.E = E = ctx.engine() if length is None else ctx.engine(unroll_nondet=True, unroll=length + 3, max_paths=2000)
        self.length = length
        def dec(E, st, ev, c): st.lin.append(numdom.ge(M.view(E, st, c.args[0])[3], fld(ev.res, 0, 0)))      # cobs: what is decoded is no longer than its encoding
        E.hooks = {"decode_in_place": dec}
        args = None if length is None else [("arg", 1), ("slice", INP, (), I(0), I(length))]
        self.L = E.clen(("deref", ("arg", 2))) if length is None else I(length)
        self.N = A.cap; n = E.clen(("fld", ("deref", ("arg", 1)), 0, A.buf))
        def prep(st):
            for i, v in state.items(): E.write(st, SELF, (("f", 0, i),), v)
            st.lin += [numdom.ge(I(BIG), self.L), numdom.ge(I(BIG), self.N), numdom.ge(self.N, n), numdom.ge(n, self.N)] + lin(self)
        self.ps = [p for p in ctx.run(f, E, args=args, prep=prep, strict=False) if p.end != "unreachable"]
    def after(self, p): return {i: self.E.read(p, SELF, (("f", 0, i),)) for i in range(self.A.n) if i != self.A.buf}
    def elem(self, i): return self.E.elem(("deref", ("arg", 2)), i)
    def zero(self, p):
        """place of the first zero of the input on this path: a term, "none", or None if not established"""
        for e in p.trace:
            if e.kind != "search": continue
            it = e.args[0]
            if not (it[0] == "agg" and len(it[4]) >= 2 and strip(it[4][0]) == ("deref", ("arg", 2)) and it[4][1] == I(0)): continue
            if e.x == "empty": return "none"
            el = strip(e.args[1])
            if known(p, Eq(el, I(0))) != (1 if e.x == "hit" else 0) or el[0] != "elem": continue
            if e.x == "hit" and e.cid.endswith(("Iterator::position", "Iterator::find", "Iterator::find_map")): return el[2]
            if e.x == "miss": return "none"
        if known(p, Eq(self.L, I(0))) == 1: return "none"
        if self.length is not None:
            for i in range(self.length):
                k = known(p, Eq(self.elem(I(i)), I(0)))
                if k == 1: return I(i)
                if k is None: return None
            return "none"
        return None
    def rest(self, p, v):
        """start of a remaining part of the input, None if it is not a suffix"""
        if v[0] == "&":
            return self.L if self.E.clen(v[1]) == I(0) else None
        cell, path, lo, ln = M.view(self.E, p, v)
        if eq0(p, ln, I(0)): return self.L
        if (cell, path) == (INP, ()) and eq0(p, add(lo, ln), self.L): return lo
        return None

def feed(ctx, A, f, length=None):
    """[(key, message, where)]: what one feed does wrong"""
    bad = []; W = at(f); seen = {}
    def expect(c, k, m, w=W):
        ctx.cov["obligations"] += 1
        if not c: bad.append((k, m, w))
        return c
    def common(F, p, what):
        """no panic, result variant, the first zero"""
        for e in p.trace:
            if e.kind in ("panic", "maypanic"): expect(False, "panic:%s:%s" % (what, e.cid), "feeding can panic (%s, %s)" % (e.cid, what), e.at())
        if not expect(p.end == "return", "end:" + what, "feeding can end with %s (%s)" % (p.end, what)): return None
        if not expect(p.ret[0] == "agg" and p.ret[2] == A.res, "result:" + what, "the result %s is not understood" % show(p.ret)): return None
        z = F.zero(p)
        if not expect(z is not None, "delimiter:" + what, "the end of the frame is not the first zero of the input (%s)" % what): return None
        name = ctx.p.adt(A.res)["variants"][p.ret[3]]["name"]
        rest = F.L
        if name != "Consumed":
            rest = F.rest(p, p.ret[4][1 - A.dat if name == "Success" else 0])
            if not expect(rest is not None, "rest:" + what, "the remaining part is not the end of the input (%s)" % show(p.ret)): return None
        return z, name, rest
    I0 = ("sym", "level")
    # --- collecting
    F = Feed(ctx, A, f, A.fields(I0), lambda F: [numdom.ge(I0, I(0)), numdom.ge(F.N, I0)], length)
    if F.E.truncated: return [("budget", "feed: too many paths to follow", W)]
    over = []
    buf0 = ("fld", ("deref", ("arg", 1)), 0, A.buf); inp = ("deref", ("arg", 2))
    for p in F.ps:
        r = common(F, p, "collecting")
        if r is None: continue
        z, name, rest = r
        s = F.after(p); idle = s == A.fields(I(0))
        dec = calls(p, "decode_in_place")
        if z == "none" and known(p, Eq(F.L, I(0))) == 1:
            seen["empty"] = seen.get("empty", 0) + 1
            expect(name == "Consumed" and s == A.fields(I0), "empty", "feeding nothing gives %s or changes the accumulator" % name)
            continue
        end = F.L if z == "none" else add(z, I(1))
        total = add(I0, end)
        fits = known(p, Not(Lt(F.N, total)))
        if fits is None:
            expect(False, "fits", "whether the frame fits the buffer is not decided by the number of its bytes"); continue
        if z == "none":
            expect(not dec and name != "Success", "early", "bytes without a delimiter are decoded")
            if fits:
                seen["collected"] = seen.get("collected", 0) + 1
                got = F.E.read(p, SELF, (("f", 0, A.buf),))
                expect(name == "Consumed" and s == A.fields(total) and stored(F, p, got, buf0, I0, F.L, inp), "collect", "bytes without a delimiter that fit are not appended (%s; %s)" % (name, show(got)))
            else:
                seen["overflow"] = seen.get("overflow", 0) + 1
                over.append((p, s))
                expect(eq0(p, rest, F.L) or known(p, Lt(I(0), rest)) == 1, "stuck", "an oversized frame hands back the same input")
            continue
        expect(eq0(p, rest, end), "rest", "the remaining part does not start behind the delimiter (at %s)" % show(rest))
        expect(idle, "reset", "the accumulator does not start a new frame behind the delimiter (%s)" % {k: show(v) for k, v in s.items()})
        if not fits:
            seen["too long"] = seen.get("too long", 0) + 1
            expect(name in ("OverFull", "DeserError") and not dec, "too-long", "a frame that does not fit the buffer gives %s" % name)
            continue
        if not expect(len(dec) == 1, "decode", "a complete frame is decoded %d times" % len(dec)): continue
        d = dec[0]; a = strip(d.args[0])
        ok_ = a[0] == "sub" and a[2] == I(0) and (eq0(p, a[3], total) or eq0(p, a[3], sub(total, I(1)))) \
            and stored(F, p, a[1], buf0, I0, end, inp, I(1) if not eq0(p, a[3], total) else I(0))
        expect(ok_, "decode-what", "what is decoded is not the collected bytes and the rest of the frame: %s" % show(a), d.at())
        vs = poss(ctx, p, d.res, RES)
        if vs == {1}:
            seen["malformed"] = seen.get("malformed", 0) + 1
            expect(name in ("DeserError", "OverFull"), "malformed", "a malformed frame gives " + name)
        elif vs == {0}:
            seen["frame"] = seen.get("frame", 0) + 1
            if expect(name == "Success", "frame", "a complete frame gives " + name):
                cell, path, lo, ln = M.view(F.E, p, p.ret[4][A.dat])
                expect((cell, path) == (SELF, (("f", 0, A.buf),)) and eq0(p, lo, I(0)) and eq0(p, ln, fld(d.res, 0, 0)), "data", "the delivered bytes are not the decoded frame")
                expect(not any(e.kind == "store" and p.trace.index(e) > p.trace.index(d) and mentions(e.args[0], lambda t: t == buf0) for e in p.trace), "data-changed", "the decoded frame is changed before it is delivered")
        else: expect(False, "decode-ignored", "the outcome of decoding is ignored", d.at())
    # --- the rest of a frame that does not fit: skipped up to and including its delimiter
    todo = []; done = []
    for p, s in over:
        if not any(s == x for x, _ in todo): todo.append((s, p))
    rounds = 0
    while todo:
        s, p0 = todo.pop(); done.append(s); rounds += 1
        if rounds > 6: expect(False, "skip-states", "the states after an oversized frame do not come to an end"); break
        gen = s == "generic"
        if gen: st = A.fields(I0); lin = lambda F: [numdom.ge(I0, add(F.N, I(1)))]
        else:
            st = s; lin = lambda F: []
            if any(mentions(v, lambda t: t[0] in ("sym", "lv", "ret", "fld")) for v in s.values()):
                if s == A.fields(s[A.idx]) and known(p0, Lt(F.N, s[A.idx])) == 1:
                    if "generic" not in done: todo.append(("generic", None))
                    continue
                if not expect(False, "skip-level", "the rest of an oversized frame is collected as a new frame (level %s)" % show(s[A.idx])): continue
        G = Feed(ctx, A, f, st, lin, length)
        if G.E.truncated: return [("budget", "feed: too many paths to follow", W)]
        for p in G.ps:
            if gen: p.trace = [e for e in p.trace if not (e.kind == "maypanic" and e.cid.startswith("overflow:Add"))]
            r = common(G, p, "skipping")
            if r is None: continue
            z, name, rest = r
            s2 = G.after(p)
            if not expect(name != "Success" and not calls(p, "decode_in_place"), "tail", "the rest of a frame that does not fit the buffer can be delivered as a message"): continue
            if z == "none":
                seen["skipping"] = seen.get("skipping", 0) + 1
                if known(p, Eq(G.L, I(0))) == 1: expect(name == "Consumed" and s2 == st, "skip-empty", "feeding nothing while skipping changes the accumulator"); continue
                expect(eq0(p, rest, G.L) or known(p, Lt(I(0), rest)) == 1, "stuck", "an oversized frame hands back the same input")
                if gen: expect(s2 == A.fields(s2[A.idx]) and known(p, Lt(G.N, s2[A.idx])) == 1, "skip-end", "skipping ends before the delimiter")
                elif s2 not in done and not any(s2 == x for x, _ in todo): todo.append((s2, p))
            else:
                seen["skipped"] = seen.get("skipped", 0) + 1
                expect(eq0(p, rest, add(z, I(1))), "skip-rest", "the remaining part does not start behind the delimiter of an oversized frame (at %s)" % show(rest))
                expect(s2 == A.fields(I(0)), "skip-reset", "the accumulator does not start a new frame behind the delimiter of an oversized frame")
    if length is None:
        for k in ("empty", "collected", "overflow", "too long", "malformed", "frame", "skipping", "skipped"): expect(seen.get(k, 0) >= 1, "never:" + k, "feed: no path covers the case '%s'" % k)
    ctx.rule("feed: %s" % sorted(seen.items()), sum(seen.values()))
    return bad
def stored(F, p, got, base, off, ln, cont, less=I(0)):
    """got is base with ln bytes of the input's start at off (possibly without the last one)"""
    if got[0] != "wr" or got[1] != base or not eq0(p, got[2], off): return False
    if not (eq0(p, got[3], ln) or eq0(p, got[3], sub(ln, less))): return False
    c = got[4]
    if c[0] == "sub" and eq0(p, c[2], I(0)) and eq0(p, c[3], got[3]): c = c[1]
    elif not eq0(p, got[3], F.L): return False
    return c == cont
def accumulator(ctx):
    A = Acc(ctx)
    for m in ("feed", "feed_ref"):
        f = ctx.inherent("CobsAccumulator", m)
        bad = feed(ctx, A, f)
        if bad and any(k.startswith(("delimiter", "end:")) for k, _, _ in bad):
            # the search for the delimiter is not a library search: inputs of 0 to 4 bytes
            for n in range(0, 5):
                b = feed(ctx, A, f, n)
                if b:
                    bad = [(k, x + " (input of %d bytes)" % n, w) for k, x, w in b]; break
            else: bad = []
        for k, x, w in bad: ctx.viol("%s:%s" % (m, k), x, w)
    return A

def run_async(ctx, f, mk, prep=None):
    """paths of a method that is asynchronous or returns a future of this crate; mk makes the engine: [(engine, path)]"""
    E = mk(); out = []
    for p in ctx.run(f, E, prep=prep):
        v = p.ret
        if p.end == "return" and v is not None and v[0] == "agg" and v[1] == "coroutine":
            E2 = mk()
            for q in ctx.run(ctx.p.fns[v[2]], E2, args=[v], subst=dict(v[5]) if len(v) > 5 else {}, prep=lambda st, p=p: (st.mem.update(p.mem), st.trace.extend(p.trace), st.lin.extend(p.lin), st.facts.update(p.facts), setattr(st, "ctr", 1000))): out.append((E2, q))
        else: out.append((E, p))
    return out

# ------------------------------------------------------------------ the receiver
LIM = ("ghost", "lim"); BASE = ("ghost", "base"); NREAD = ("ghost", "reads")
def receiver(ctx, A):
    f = ctx.trait_fn("host_client::WireRx", "receive", lambda t: t.k == "adt" and "::serial::" in t.d["def"], "the serial receiver")
    W = at(f)
    def rd(E, st, ev, c):
        v = M.view(E, st, c.args[1])
        ev.x = {"view": v, "pos": st.mem[POS], "lim": st.mem[LIM], "lin": list(st.lin), "facts": dict(st.facts)}
        st.mem[("ghost", "room")] = v[3]; st.mem[("ghost", "cell")] = ("slice",) + tuple(v)
    def done(E, st, ev, c):
        n = fld(ev.res, 0, 0)
        st.lin.append(numdom.ge(st.mem[("ghost", "room")], n))
        ev.x = n
        st.mem[POS] = I(0); st.mem[LIM] = n; st.mem[BASE] = st.mem[("ghost", "cell")]
    def fed(E, st, c, r, v):
        from engine import Ev
        vw = M.view(E, st, v); pos, lim = st.mem[POS], st.mem[LIM]
        b = st.mem[BASE]
        n = st.fresh(); res = ("ret", n, c.cid)
        outs = []
        for name in ("Consumed", "OverFull", "DeserError", "Success"):
            s = st.fork()
            for fr in s.frames: fr.nondet = True
            ev = Ev("call", c.cid, c.self, tuple(c.gargs), (E.deep(s, r), E.deep(s, v)), res, c.fr.fn.key, c.line, n, stack=tuple(x.fn.key for x in s.frames), file=c.file)
            ev.raw = (r, v)
            same = b[0] == "slice" and vw[:2] == b[1:3]
            q = P2({"lin": s.lin, "facts": s.facts})
            good = same and eq0(q, vw[2], add(b[3], pos)) and eq0(q, vw[3], sub(lim, pos))
            ev.x = {"good": good, "name": name, "data": None, "view": vw, "pos": pos}
            s.trace.append(ev)
            if name == "Consumed":
                s.mem[POS] = lim; outs.append((s, ("agg", "adt", A.res, A.v[name], ()))); continue
            k = ("sym", "used", s.fresh())
            s.lin += [numdom.ge(k, I(1)), numdom.ge(vw[3], k)]
            s.mem[POS] = add(pos, k)
            rest = ("slice", vw[0], vw[1], add(vw[2], k), sub(vw[3], k))
            if name == "Success":
                d = ("sym", "frame", s.fresh()); ev.x["data"] = d
                ds = ("slice", ("ext", d), (), I(0), E.clen(("deref", d)))
                fs = (ds, rest) if A.dat == 0 else (rest, ds)
            else: fs = (rest,)
            outs.append((s, ("agg", "adt", A.res, A.v[name], fs)))
        return outs
    base = ctx.p.cid(ctx.inherent("CobsAccumulator", "feed").key); ref = ctx.p.cid(ctx.inherent("CobsAccumulator", "feed_ref").key)
    def mk():
        E = ctx.engine(merge=True, models={base: fed, ref: fed})
        E.hooks = {"AsyncReadExt::read": rd, "await:AsyncReadExt::read": done}
        return E
    adt = [k for k in ctx.p.adts if "::serial::" in k and any(x.key == f.key for x in ctx.p.impl_fn("host_client::WireRx", "receive", lambda t, k=k: t.k == "adt" and t.d["def"] == k))][0]
    cr = ctx.p.crates["postcard_rpc"]
    arrays = []
    caps = [int(m.group(1)) for fl in ctx.p.adt(adt)["variants"][0]["fields"] for m in [re.search(r"CobsAccumulator<(\d+)>", cr.types[fl[1]].s)] if m]
    ctx.expect(len(caps) == 1 and caps[0] >= 1024, "recv:capacity", "the receiver's accumulator does not hold frames of 1024 bytes (%s)" % caps, W)
    for i, fl in enumerate(ctx.p.adt(adt)["variants"][0]["fields"]):
        m = re.match(r"^(?:alloc::boxed::|std::boxed::)?(Box<)?\[u8; (\d+)\]", cr.types[fl[1]].s)
        if m: arrays.append((i, bool(m.group(1)), int(m.group(2))))
    def prep(st):
        for i, boxed, n in arrays:
            t = ("fld", ("deref", ("arg", 1)), 0, i)
            ln = op("len", ("deref", t) if boxed else t)
            st.lin += [numdom.ge(ln, I(n)), numdom.ge(I(n), ln)]
        st.mem[POS] = st.mem[LIM] = I(0); st.mem[BASE] = st.mem[("ghost", "cell")] = UNIT; st.mem[("ghost", "room")] = I(0)
    ps = run_async(ctx, f, mk, prep)
    seen = {}
    READ = "AsyncReadExt::read"
    moves = lambda e: e.kind == "call" and e.cid in (base, ref) or e.kind == "await" and e.cid.endswith(READ)
    def lastw(p, i=None):
        return max([j for j, e in enumerate(p.trace[:i]) if e.kind == "widen"], default=-1)
    # loop heads where everything read so far has been fed (by induction over the iterations)
    closed = {(p.note[1], p.note[2]) for _, p in ps if p.end == "loop"}
    while True:
        def fed_all(p, i, q, pos, lim):
            """at event i of path p nothing is left to be fed"""
            w = lastw(p, i)
            if w >= 0 and (p.trace[w].fn, p.trace[w].line) in closed and not any(moves(e) for e in p.trace[w + 1:i]): return True
            return eq0(q, pos, lim)
        drop = {(p.note[1], p.note[2]) for _, p in ps if p.end == "loop" and (p.note[1], p.note[2]) in closed and not fed_all(p, len(p.trace), p, p.mem[POS], p.mem[LIM])}
        if not drop: break
        closed -= drop
    def hit(k): seen[k] = seen.get(k, 0) + 1
    qs = set()
    for E, p in ps:
        if p.end == "unreachable": continue
        if not ctx.expect(p.end in ("return", "loop"), "recv:end", "the serial receiver can end with %s (%s)" % (p.end, p.note), W): continue
        for e in p.trace:
            if e.kind in ("panic", "maypanic") and not e.cid.startswith("overflow:"): ctx.viol("recv:panic:" + e.cid, "the serial receiver can panic (%s)" % e.cid, e.at())
        lw = lastw(p)
        tr = p.trace[lw + 1:]
        # what is read is fed, as a whole and in order, before anything else is waited for
        for e in tr:
            if e.kind == "call" and e.cid.endswith("AsyncReadExt::read"):
                hit("read")
                q = P2(e.x)
                ctx.expect(fed_all(p, p.trace.index(e), q, e.x["pos"], e.x["lim"]), "recv:unfed", "reads more although bytes of the previous read are not fed to the accumulator yet", e.at())
                ctx.expect(numdom.entails(e.x["lin"], numdom.ge(e.x["view"][3], I(1))), "recv:room", "reads into an empty buffer (%s)" % show(e.x["view"][3]), e.at())
                ctx.expect(awaited(p, e) is not None, "recv:await", "a read is not awaited", e.at())
            if e.kind == "await" and not e.cid.endswith("AsyncReadExt::read"):
                ctx.viol("recv:waits", "waits for something else than serial data (%s)" % e.cid, e.at())
            if e.kind == "call" and e.cid in (base, ref):
                hit("feed " + e.x["name"])
                ctx.expect(e.x["good"], "recv:feed", "what is fed to the accumulator is not the received bytes that were not fed yet", e.at())
        # results of reads
        for e in tr:
            if e.kind != "await" or not e.cid.endswith("AsyncReadExt::read"): continue
            vs = poss(ctx, p, e.res, RES); n = fld(e.res, 0, 0)
            if vs == {1}:
                hit("read error")
                ctx.expect(p.end == "return" and p.ret[0] == "agg" and p.ret[3] == 1 and mentions(p.ret, lambda t: t == fld(e.res, 1, 0)), "recv:error", "a failed read is not reported", e.at())
            elif vs != {0}: ctx.viol("recv:ignored", "the outcome of a read is ignored", e.at())
            else:
                z = known(p, Eq(n, I(0)))
                if z is None: ctx.viol("recv:eof", "the end of the stream is not told apart from received bytes", e.at())
                elif z:
                    hit("end of stream")
                    ctx.expect(p.end == "return" and p.ret[0] == "agg" and p.ret[3] == 1, "recv:eof", "the end of the stream is not reported", e.at())
        # complete frames are queued, and returned in order
        fe = [i for i, e in enumerate(tr) if e.kind == "call" and e.cid in (base, ref)] + [len(tr)]
        pushes = [(i, e) for i, e in enumerate(tr) if e.kind == "call" and e.cid.endswith(("VecDeque::push_back",))]
        used = set()
        for a, b in zip(fe, fe[1:]):
            e = tr[a]; d = e.x["data"]
            mine = [(i, x) for i, x in pushes if a < i < b]
            if d is None:
                ctx.expect(not mine, "recv:push", "something is queued although no frame is complete", e.at()); continue
            data = ("deref", d)
            for i, x in mine:
                used.add(i)
                ctx.expect(strip(x.args[1]) == data, "recv:push-what", "what is queued is not the received frame: %s" % show(x.args[1]), x.at())
                qs.add(E.deref(x.raw[0]) if x.raw[0][0] in ("ref", "arg") else x.raw[0]); hit("queued")
            if len(mine) != 1:
                short = numdom.entails(p.lin, numdom.ge(I(MIN - 1), E.clen(data)))
                if len(mine) == 0 and short: hit("too short")
                else: ctx.viol("recv:lost" if not mine else "recv:twice", "a complete frame is queued %d times" % len(mine), e.at())
        for i, x in pushes: ctx.expect(i in used, "recv:push", "something is queued although no frame is complete", x.at())
        for e in tr:
            if e.kind == "call" and "VecDeque::" in e.cid and not e.cid.endswith(("push_back", "pop_front", "is_empty", "len", "reserve", "front")): ctx.viol("recv:queue:" + e.cid.split("::")[-1], "the queue of received frames is used by %s" % e.cid, e.at())
        pops = [e for e in tr if e.kind == "call" and e.cid.endswith("VecDeque::pop_front")]
        for e in pops:
            qs.add(E.deref(e.raw[0]) if e.raw[0][0] in ("ref", "arg") else e.raw[0])
            vs = poss(ctx, p, e.res, OPT)
            if vs == {1}:
                hit("returned")
                ctx.expect(p.end == "return" and p.ret == ok(fld(e.res, 1, 0)), "recv:popped", "a frame taken from the queue is not returned", e.at())
            elif vs != {0}: ctx.viol("recv:popped", "a frame taken from the queue is not returned", e.at())
        if p.end == "return" and p.ret[0] == "agg" and p.ret[3] == 0:
            ctx.expect(any(p.ret == ok(fld(e.res, 1, 0)) and poss(ctx, p, e.res, OPT) == {1} for e in pops), "recv:result", "returns something that is not the oldest queued frame (%s)" % show(p.ret), W)
            ctx.expect(fed_all(p, len(p.trace), p, p.mem[POS], p.mem[LIM]), "recv:unfed", "returns although bytes of the last read are not fed to the accumulator yet", W)
        elif p.end == "return":
            ctx.expect(any(e.kind == "await" and e.cid.endswith("AsyncReadExt::read") and (poss(ctx, p, e.res, RES) == {1} or known(p, Eq(fld(e.res, 0, 0), I(0))) == 1) for e in tr), "recv:gives-up", "gives up although reading did not fail", W)
    ctx.expect(len(qs) == 1, "recv:queues", "received frames are queued in one place and taken from another (%s)" % sorted(map(repr, qs)), W)
    for k in ("read", "read error", "end of stream", "queued", "returned", "feed Consumed", "feed OverFull", "feed DeserError", "feed Success"): ctx.floor("serial receiver: " + k, seen.get(k, 0), 1)
    ctx.rule("serial receiver: %s" % sorted(seen.items()), sum(seen.values()))
    ctx.sample({"fn": f.key, "paths": len(ps), "seen": seen})

# ------------------------------------------------------------------ the sender
def sender(ctx):
    f = ctx.trait_fn("host_client::WireTx", "send", lambda t: t.k == "adt" and "::serial::" in t.d["def"], "the serial sender")
    W = at(f)
    n = 0
    for E, p in run_async(ctx, f, ctx.engine):
        if p.end == "unreachable": continue
        for e in p.trace:
            if e.kind in ("panic", "maypanic"): ctx.viol("send:panic:" + e.cid, "the serial sender can panic (%s)" % e.cid, e.at())
        if not ctx.expect(p.end == "return", "send:end", "the serial sender can end with %s (%s)" % (p.end, p.note), W): continue
        enc = [e for e in p.trace if e.kind == "call" and "cobs::" in e.cid]
        w = [e for e in p.trace if e.kind == "call" and "AsyncWrite" in e.cid and not e.cid.endswith("::flush")]
        if not ctx.expect(len(enc) == 1 and enc[0].cid.endswith("encode_vec") and strip(enc[0].args[0]) == ("arg", 2), "send:encode", "the message is not COBS encoded once as a whole", W): continue
        if not ctx.expect(len(w) == 1 and w[0].cid.endswith("::write_all"), "send:write", "the encoded message is not written by one write_all", W): continue
        got = strip(w[0].args[1])
        ctx.expect(got == ("cat", enc[0].res, ("one", I(0))), "send:what", "what is written is not the encoded message and one delimiter: %s" % show(got), w[0].at())
        R = awaited(p, w[0])
        if not ctx.expect(R is not None, "send:await", "the write is not awaited", w[0].at()): continue
        vs = poss(ctx, p, R, RES); n += 1
        fl = [e for e in p.trace if e.kind == "await" and e.cid.endswith("::flush")]
        rs = [R] + [e.res for e in fl]
        failed = [r for r in rs if poss(ctx, p, r, RES) == {1}]
        if failed: ctx.expect(p.ret[0] == "agg" and p.ret[3] == 1 and mentions(p.ret, lambda t: t == fld(failed[0], 1, 0)), "send:error", "a failed write is not reported", w[0].at())
        else: ctx.expect(all(poss(ctx, p, r, RES) == {0} for r in rs) and p.ret[0] == "agg" and p.ret[3] == 0, "send:result", "the outcome of the write is not reported", w[0].at())
    ctx.floor("serial sender: written frames", n, 2)
    ctx.rule("serial sender", n)

@check("C18", 'The accumulator is interpreted for one feed of arbitrary input from an arbitrary reachable state (invariant: the stored prefix is the bytes since the last zero, or the skip marker after overflow); all sizes symbolic. The receiver is interpreted with arbitrary reads, its window summarised as a position in the read; every successful decode that is long enough must be queued, the queue is drained first in, first out, and no await lies between a decode and its queuing. The sender must write the COBS encoding followed by one zero.',
       ['cobs 0.2.3: decode_in_place stops at the first zero and yields at most its input length; encode_vec produces no zero byte', 'read Ok(n) implies n <= buffer length; write_all writes everything or fails', 'when the induction over the input is open, inputs of 0 to 4 bytes are decided instead'])
def c18(ctx):
    A = accumulator(ctx)
    receiver(ctx, A)
    sender(ctx)
