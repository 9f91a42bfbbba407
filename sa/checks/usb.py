"""C15-C17, C21, C24: the USB transports (embassy-usb device side, nusb host side)."""
from checks import check
from checks.header import Names, KW, SW, at
from checks.util import *
from terms import *
from core import Missing
import numdom, models as M

PKT = 64
VERS = ("embassy_usb_v0_3", "embassy_usb_v0_4")
POS = ("ghost", "pos")
def eq0(p, a, b):
    """a == b on path p"""
    return a == b or entails_eq(p.lin, a, b)
def entails_eq(l, a, b): return numdom.entails(l, numdom.ge(a, b)) and numdom.entails(l, numdom.ge(b, a))
def known(p, t):
    """truth value of a condition on path p, or None"""
    if t[0] == "int": return t[1]
    if t[0] == "not":
        k = known(p, t[1]); return None if k is None else 1 - k
    if t in p.facts: return p.facts[t]
    if t[0] == "lt":
        if numdom.entails(p.lin, numdom.ge(t[2], add(t[1], I(1)))): return 1
        if numdom.entails(p.lin, numdom.ge(t[1], t[2])): return 0
    if t[0] == "eq":
        if entails_eq(p.lin, t[1], t[2]): return 1
        for a, b in ((t[1], t[2]), (t[2], t[1])):
            if numdom.entails(p.lin, numdom.ge(a, add(b, I(1)))): return 0
    return None
def tx_impl(ctx, ver, m):
    fs = [f for f in ctx.p.impl_fn("server::WireTx", m, lambda t: True) if "::%s::" % ver in f.key]
    if len(fs) != 1: raise Missing("WireTx::%s of %s" % (m, ver))
    return fs[0]
class Inner:
    """fields of the state behind the sender's lock"""
    def __init__(self, ctx, ver):
        self.adt = find_adt(ctx, ver + "::EUsbWireTxInner")
        a = ctx.p.adt(self.adt)
        self.flag = [i for i, f in enumerate(a["variants"][0]["fields"]) if self.ty(ctx, f) == "bool"]
        self.ms = [i for i, f in enumerate(a["variants"][0]["fields"]) if self.ty(ctx, f) in ("usize", "u32", "u64")]
        self.seq = [i for i, f in enumerate(a["variants"][0]["fields"]) if self.ty(ctx, f) == "u16"]
        self.buf = [i for i, f in enumerate(a["variants"][0]["fields"]) if "[u8]" in self.ty(ctx, f)]
        if len(self.flag) != 1: raise Missing("the pending-frame mark of " + self.adt)
        self.flag = self.flag[0]
    def ty(self, ctx, f):
        t = f["ty"] if isinstance(f, dict) else f[1]
        if isinstance(t, int):
            for c in ctx.p.crates.values():
                if self.adt.startswith(c.name + "::") if hasattr(c, "name") else True: return c.types[t].s
        return str(t)

def is_guarded(cell): return cell[0] == "ext" and cell[1][0] == "call" and cell[1][1] == "deref"
def write_hook(I_):
    def h(E, st, ev, c):
        vw = M.view(E, st, c.args[1])
        pos = st.mem[POS]
        ep = c.args[0]
        fl = None; cell = None
        if ep[0] == "ref":
            cell = ep[1]
            if is_guarded(cell): fl = E.read(st, cell, (("f", 0, I_.flag),))
        ev.x = {"view": vw, "pos": pos, "flag": fl, "cell": cell, "lin": list(st.lin), "facts": dict(st.facts)}
        st.mem[POS] = add(pos, vw[3])
    return h
class P2:
    """a path's facts at an earlier point"""
    def __init__(self, x): self.lin = x["lin"]; self.facts = x["facts"]

def sends(ctx, ver, m, length=None):
    """paths of one sending method; each write event carries its place in the frame"""
    f = tx_impl(ctx, ver, m)
    I_ = Inner(ctx, ver)
    hooks = {"EndpointIn::write": write_hook(I_)}
    args = None
    if length is not None:
        # a frame of one particular length, everything else unknown
        hl = min(length, 5)
        if m == "send_raw": args = [("arg", 1), ("slice", ("ext", ("arg", 2)), (), I(0), I(length))]
        def head(E, st, ev, c):
            vw = M.view(E, st, c.args[1])
            E.assume(st, Lt(vw[3], I(hl)), 0)
            ev.res = some(("agg", "tuple", None, 0, (M.mk(vw, I(0), I(hl)), M.mk(vw, I(hl), sub(vw[3], I(hl))))))
        def body(E, st, ev, c):
            vw = M.view(E, st, c.args[1])
            E.assume(st, Lt(vw[3], I(length - hl)), 0)
            ev.res = ok(M.mk(vw, I(0), I(length - hl)))
        hooks["VarHeader::write_to_slice"] = head; hooks["::to_slice"] = body
    E = ctx.engine(opaque=("VarHeader::write_to_slice",), hooks=hooks,
                   unroll_nondet=length is not None, unroll=100, **({} if length is None else {"max_paths": 400, "max_steps": 20000 + 40 * length}))
    def prep(st): st.mem[POS] = I(0)
    return f, I_, E, ctx.run(f, E, args=args, prep=prep, strict=False)

def frame_of(ctx, E, p, m, length):
    """(cell, path, start, length) of the bytes the method has to send, from its own header and body"""
    if m == "send_raw":
        return ("ext", ("arg", 2)), (), I(0), I(length) if length is not None else E.clen(("deref", ("arg", 2)))
    w = calls(p, "VarHeader::write_to_slice"); s = calls(p, "to_slice")
    if len(w) != 1 or len(s) != 1: return None
    h = fld(fld(w[0].res, 1, 0), 0, 0); rest = fld(fld(w[0].res, 1, 0), 0, 1)
    if s[0].raw[1] != rest: return None
    body = fld(s[0].res, 0, 0)
    ln = lambda v: v[4] if v[0] == "slice" else E.clen(("deref", v))
    return w[0], s[0], add(ln(h), ln(body))

def device_frames(ctx, ver, m, what, length=None, out=None):
    """C15 ('frame') and C16 ('mark') obligations on one sending method; returns False where a proof is open"""
    f, I_, E, ps = sends(ctx, ver, m, length)
    where = at(f)
    if out is not None: out |= thresholds(ps)
    if E.truncated: return [("%s:%s:budget" % (ver[-4:], m), "%s: too many paths to follow" % m, where)]
    TXK = find_adt(ctx, "server::WireTxErrorKind")
    cc = variant_index(ctx, TXK, "ConnectionClosed"); tmo = variant_index(ctx, TXK, "Timeout")
    tag = "%s:%s" % (ver[-4:], m)
    seen = {"whole": 0, "terminated": 0, "write error": 0, "timeout": 0, "flushed": 0}
    bad = []
    def want(c, key, msg, at_):
        ctx.cov["obligations"] += 1
        if not c: bad.append(("%s:%s" % (tag, key), "%s: %s" % (m, msg), at_))
        return c
    for p in ps:
        if p.end == "unreachable": continue
        ws = calls(p, "EndpointIn::write")
        lk = [e for e in p.trace if e.kind == "await" and e.cid.endswith("Mutex::lock")]
        if what == "frame":
            for e in p.trace:
                if e.kind in ("panic", "maypanic") and not e.cid.startswith("overflow:"): want(False, "panic:" + e.cid, "can panic (%s)" % e.cid, e.at())
            if p.end not in ("return", "loop"): want(False, "end", "can end with %s (%s)" % (p.end, p.note), where); continue
        last_widen = max([i for i, e in enumerate(p.trace) if e.kind == "widen"], default=-1)
        sel = [e for e in p.trace if e.kind == "select"]
        expired = any(e.x < len(e.args) and is_timer(e.args[e.x]) for e in sel)
        fr = frame_of(ctx, E, p, m, length) if ws or expired else None
        if ws:
            cells = {repr(w.x["cell"]) for w in ws}
            if what == "mark":
                want(len(lk) == 1 and len(cells) == 1 and all(w.x["cell"] is not None and is_guarded(w.x["cell"]) and mentions(w.x["cell"], lambda t: t == lk[0].res) for w in ws),
                     "lock", "a packet is written without holding the sender's lock for the whole frame", ws[0].at())
            if fr is None:
                want(False, "frame", "writes packets although header and body were not both prepared in the transmit buffer", ws[0].at()); continue
            if m == "send_raw": base, T = fr[:3], fr[3]
            else:
                wh, sl, T = fr
                bf = wh.raw[1]
                base = None
                if bf[0] in ("ref", "slice"): v = M.view(E, p, bf); base = (v[0], v[1], v[2])
                else: base = (("ext", bf), (), I(0))
        prev_ok = True; data = 0
        for n, w in enumerate(ws):
            x = w.x; q = P2(x); cell, path, lo, ln = x["view"]
            aw = [e for e in p.trace if e.kind == "await" and e.args and e.args[0] == w.res]
            if len(aw) != 1: want(False, "await", "a packet's write is not awaited", w.at()); continue
            nxt = p.trace[p.trace.index(w) + 1:]
            R = aw[0].res; vs = poss(ctx, p, R, RES)
            # the mark
            if what == "mark":
                fl = x["flag"]
                flv = fl[1] if fl is not None and fl[0] == "int" else x["facts"].get(fl)
                want(flv == 1, "mark-set", "a packet is written while the frame is not marked as pending: an interruption here would let the next frame continue this one", w.at())
            empty = ln == I(0)
            first = eq0(q, x["pos"], I(0)) and data == 0
            if empty and first and known(q, Eq(T, I(0))) != 1 and not p.trace.index(w) > last_widen >= 0:
                # leading empty packet: only to end an earlier, interrupted frame
                fl0 = p.facts.get(_flag0(x["cell"], I_))
                if what == "mark": want(fl0 == 1, "flush", "an empty packet is sent first although no frame was interrupted", w.at())
                if what == "frame": want(fl0 == 1, "flush", "a frame starts with an empty packet although no frame was interrupted: the receiver sees an extra frame", w.at())
                seen["flushed"] += 1
            elif empty:
                if what == "frame":
                    want(eq0(q, x["pos"], T), "early-end", "an empty packet is sent before the whole frame was written", w.at())
                    want(known(q, Eq(E.rem(T, PKT), I(0))) == 1, "extra-end", "an empty packet is sent although the frame already ended with a short packet", w.at())
            else:
                data += 1
                if what == "mark" and data == 1 and last_widen < p.trace.index(w) and not any(e.x["view"][3] == I(0) for e in ws[:n]) and not any(e.kind == "widen" for e in p.trace[:p.trace.index(w)]):
                    want(x["cell"] is not None and x["facts"].get(_flag0(x["cell"], I_)) == 0, "no-flush", "a frame is started without first ending the frame that was interrupted before it", w.at())
                if what == "frame":
                    want((cell, path) == base[:2] and eq0(q, sub(lo, base[2]), x["pos"]), "order", "a packet does not continue where the previous one stopped (offset %s, already sent %s)" % (show(lo), show(x["pos"])), w.at())
                    want(numdom.entails(q.lin, numdom.ge(I(PKT), ln)) and numdom.entails(q.lin, numdom.ge(ln, I(1))), "size", "a packet of %s bytes is written" % show(ln), w.at())
                    want(eq0(q, ln, I(PKT)) or eq0(q, add(x["pos"], ln), T), "short-inside", "a packet before the last one may be shorter than the packet size", w.at())
            if vs == {1}:
                seen["write error"] += 1
                if what == "frame":
                    want(n == len(ws) - 1 and p.end == "return" and p.ret == err(("agg", "adt", TXK, cc, ())), "write-error", "a failed write is not reported to the caller as a closed connection (%s)" % show(p.ret or UNIT), w.at())
            elif vs != {0}:
                if what == "frame": want(False, "write-ignored", "the result of writing a packet is ignored", w.at())
        okret = p.end == "return" and p.ret is not None and p.ret[0] == "agg" and p.ret[3] == 0
        if what == "mark" and ws:
            cell = ws[0].x["cell"]
            fl = E.read(p, cell, (("f", 0, I_.flag),)) if cell is not None else UNDEF
            if okret: want(fl == I(0), "mark-clear", "a completely sent frame stays marked as pending", ws[-1].at())
            elif p.end == "return" and data: want(fl == I(1), "mark-lost", "a frame that was not completely sent is no longer marked as pending", ws[-1].at())
            elif p.end == "return": want(fl == I(1) or p.facts.get(_flag0(cell, I_)) == 1 and fl == ("fld", ("deref", cell[1]), 0, I_.flag), "mark-lost", "an interrupted frame is no longer marked although its end was not written", ws[-1].at())
        if okret and what == "frame":
            if not ws:
                # nothing sent: only for an empty frame
                fr = frame_of(ctx, E, p, m, length)
                T = fr[-1] if fr is not None else None
                want(T is not None and known(p, Eq(T, I(0))) == 1, "nothing-sent", "reports success although nothing was written", where)
                continue
            fin = p.mem[POS]
            want(eq0(p, fin, T), "incomplete", "reports success after %s of %s bytes" % (show(fin), show(T)), where)
            lw = ws[-1]
            zlp = lw.x["view"][3] == I(0) and p.trace.index(lw) > last_widen and (data or last_widen >= 0 or known(p, Eq(T, I(0))) == 1)
            r = known(p, Eq(E.rem(T, PKT), I(0)))
            if r is None and entails_eq(p.lin, T, T) and is_int(T): r = int(T[1] % PKT == 0)
            want(r == int(bool(zlp)), "terminator", "a frame whose length %s a multiple of the packet size is %s by an empty packet" % ("is" if r else "is not" if r == 0 else "may or may not be", "followed" if zlp else "not followed"), where)
            seen["whole"] += 1
            if zlp: seen["terminated"] += 1
        if what == "mark":
            if expired:
                seen["timeout"] += 1
                i = p.trace.index(sel[-1])
                for e in p.trace[i:]:
                    if e.kind == "store" and mark_place(e, I_): want(e.args[1] == I(1), "mark-lost", "a frame whose time ran out is no longer marked as pending", e.at())
                want(p.end == "return" and p.ret == err(("agg", "adt", TXK, tmo, ())), "timeout-error", "a write that takes too long is reported as %s" % show(p.ret or UNIT), sel[-1].at())
            if ws:
                want(len(sel) == 1 and limit(ctx, p, E, sel[0], T, I_), "limit", "writing a frame is not limited to its number of packets times the configured time", (sel or ws)[0].at())
            # nothing else may change the mark
    if length is None:
        for k in (("whole", "terminated", "write error") if what == "frame" else ("timeout",)):
            if not seen[k]: bad.append(("%s:never:%s" % (tag, k), "%s: no path covers the case '%s'" % (m, k), where))
    ctx.sample({"fn": f.key, "paths": len(ps), "seen": seen, "length": length})
    ctx.rule("%s %s" % (what, m), len(ps))
    return bad
def _flag0(cell, I_): return ("fld", ("deref", cell[1]), 0, I_.flag)

def mark_place(e, I_):
    """a store to the pending mark"""
    return e.args[0][0] == "fld" and e.args[0][3] == I_.flag or e.args[0][0] == "deref" and e.args[0][1][0] == "&" and e.args[0][1][1][0] == "fld"
def is_timer(t):
    return any(x[0] == "call" and "::Timer::" in "::" + x[1] for x in subterms(t)) and t[0] != "agg"
def limit(ctx, p, E, sel, T, I_):
    """one side of the select is a timer of packets * configured milliseconds"""
    for a in sel.args:
        for t in subterms(a):
            if t[0] == "call" and t[1].endswith(("Timer::after_millis", "Duration::from_millis")):
                ms = t[3]
                while ms[0] == "cast": ms = ms[1]
                if ms[0] == "op" and ms[1] == "Mul":
                    for fac, fr in ((ms[2], ms[3]), (ms[3], ms[2])):
                        if fac[0] == "fld" and fac[3] in I_.ms:
                            l = list(p.lin) + [numdom.ge(fr, I(0))]
                            return numdom.entails(l, numdom.ge(mulc(fr, PKT), T)) and numdom.entails(l, numdom.ge(add(T, I(3 * PKT)), mulc(fr, PKT)))
                c0, d0 = lin(ms)
                if c0 == 0 and len(d0) == 1 and list(d0)[0][0] == "fld" and list(d0)[0][3] in I_.ms:
                    fr = I(list(d0.values())[0])
                    return numdom.entails(list(p.lin), numdom.ge(mulc(fr, PKT), T)) and numdom.entails(list(p.lin), numdom.ge(add(T, I(3 * PKT)), mulc(fr, PKT)))
                # a fixed time per packet
                for c in sorted({abs(k) for k in lin(ms)[1].values()} | ({ms[1] * PKT // max(T[1], 1), ms[1]} if is_int(ms) and is_int(T) else set())):
                    l = list(p.lin)
                    if c and numdom.entails(l, numdom.ge(mulc(ms, PKT), mulc(T, c))) and numdom.entails(l, numdom.ge(mulc(add(T, I(3 * PKT)), c), mulc(ms, PKT))): return True
    return False

def thresholds(ps):
    """numbers the code compares lengths with, from the conditions on its paths"""
    out = set()
    for p in ps:
        for c, d in p.lin: out |= {abs(c)} | {abs(k) for k in d.values()}
        for t in p.facts:
            for x in subterms(t):
                if x[0] == "int" and isinstance(x[1], int): out.add(abs(x[1]))
                if x[0] == "op" and x[1] == "trunc" and is_int(x[3]): out.add(2 ** x[3][1])
        for e in p.trace:
            if e.kind == "call":
                for a in e.args:
                    for x in subterms(a):
                        if x[0] == "op" and x[1] == "trunc" and is_int(x[3]): out.add(2 ** x[3][1])
                        if x[0] in ("slice", "sub"): out |= {abs(y[1]) for y in subterms(x) if y[0] == "int" and isinstance(y[1], int)}
    return {x for x in out if x < 2 ** 60}

LENGTHS = [0, 1, 2, 3, 5, 8] + [k * PKT + d for k in (1, 2, 3, 4, 5, 8) for d in (-32, -1, 0, 1, 9)]
CAP = 96 * PKT
def device(ctx, ver, m, what, only=None):
    """every frame length at once by induction over the packets; where that proof does not go through,
    the same obligations for each length of a finite set that covers 0 to 8 packets, every kind of last packet,
    and both sides of every number the code compares lengths with. only: just these obligations"""
    def sel(b): return [x for x in b if only is None or x[0].rsplit(":", 1)[-1] in only]
    ths = set()
    bad = device_frames(ctx, ver, m, what, out=ths)
    if sel(bad):
        worst = None
        far = sorted(c for c in ths if 8 * PKT < c)
        ls = LENGTHS + sorted({c + d for c in far if c <= CAP for d in (-PKT, -1, 0, 1, PKT)})
        for L in ls:
            b = sel(device_frames(ctx, ver, m, what, L))
            if b: worst = (L, b); break
        if worst is None and any(c > CAP for c in far):
            # lengths that matter are out of reach of the case split: the open proof counts
            for k, msg, w in sel(bad): ctx.viol(k, msg + " (not shown for frames of more than %d bytes)" % CAP, w)
            return
        if worst is None:
            ctx.rule("%s %s: by length (induction open: %s)" % (what, m, sel(bad)[0][0]), len(ls)); return
        bad = [(k, msg + (" (frame of %d bytes)" % worst[0]), w) for k, msg, w in worst[1]] or bad
    for k, msg, w in sel(bad): ctx.viol(k, msg, w)
@check("C15", "Both device-side senders and the host-side sender are interpreted with a symbolic frame length and packet size; loops over packets are summarised by an inductive invariant over the bytes sent so far (linear arithmetic), with a case split over lengths around multiples of the packet size only when the invariant is open. Rules: packets are the frame's bytes in order, each at most the packet size, an empty packet follows exactly when the length is a multiple of it, nothing follows a short packet, and a failed write is returned as an error.",
       ["embassy EndpointIn::write and nusb's queue transmit one packet / one transfer of the given bytes", 'packet size is not 0', 'frame length + 63 and frames * timeout do not overflow usize'])
def c15(ctx):
    for ver in VERS:
        for m in ("send_raw", "send", "send_log_str"):
            device(ctx, ver, m, "frame")
    nusb_sender(ctx)
@check("C16", "Typestate of the pending-frame flag along every path of the device-side senders, every await treated as a point where the future may be dropped: the flag is true at each await between the first packet and the end of the frame, false only after the terminator was written; if it is set at entry the first write is an empty packet. Every frame is built and sent while the sender's async mutex guard is alive; each packet write is raced against a timer whose expiry returns the timeout error.",
       ['embassy-sync Mutex excludes concurrent holders; select polls both futures', 'the executor drops futures only at await points'])
def c16(ctx):
    for ver in VERS:
        for m in ("send_raw", "send", "send_log_str"):
            device(ctx, ver, m, "mark")

# ------------------------------------------------------------------ host side (nusb)
QN = ("ghost", "queue")
def queue_hooks():
    def q(f):
        def h(E, st, ev, c):
            n = st.mem[QN]
            ev.x = {"n": n, "lin": list(st.lin), "facts": dict(st.facts)}
            f(E, st, ev, n)
        return h
    def setn(d):
        def f(E, st, ev, n): st.mem[QN] = add(n, I(d))
        return q(f)
    def pend(E, st, ev, n): ev.res = n
    return {"Queue::submit": setn(1), "Queue::next_complete": setn(-1), "Queue::pending": q(pend), "Queue::cancel_all": setn(0), "Queue::clear_halt": setn(0)}
def nusb_sender(ctx):
    f = ctx.inherent(find_adt(ctx, "raw_nusb::NusbWireTx"), "send_inner") if ctx.p.inherent(find_adt(ctx, "raw_nusb::NusbWireTx"), "send_inner") else \
        ctx.trait_fn("host_client::WireTx", "send", lambda t: "NusbWireTx" in t, "NusbWireTx")
    tr = [g for g in ctx.p.impl_fn("host_client::WireTx", "send", lambda t: "NusbWireTx" in t.s)]
    if len(tr) != 1: raise Missing("<NusbWireTx as WireTx>::send")
    adt = find_adt(ctx, "raw_nusb::NusbWireTx")
    a = ctx.p.adt(adt)
    E = ctx.engine(hooks=queue_hooks(), unroll=6, unroll_nondet=True)
    fut = ctx.run(tr[0], E, prep=lambda st: st.mem.__setitem__(QN, I(0)))
    # an async method is followed into; a method that returns a future is followed by running that future
    ps = []
    for p in fut:
        if p.end == "return" and p.ret is not None and p.ret[0] == "agg" and p.ret[1] == "coroutine":
            E2 = ctx.engine(hooks=queue_hooks(), unroll=6, unroll_nondet=True)
            v = p.ret
            ps += ctx.run(ctx.p.fns[v[2]], E2, args=[v], subst=dict(v[5]) if len(v) > 5 else {}, prep=lambda st, m=dict(p.mem): (st.mem.update(m), setattr(st, "ctr", 1000)))
        else: ps.append(p)
    where = at(tr[0])
    data = ("arg", 2)
    seen = {"plain": 0, "terminated": 0, "error": 0}
    for p in ps:
        if p.end == "unreachable": continue
        for e in p.trace:
            if e.kind in ("panic", "maypanic") and e.cid != "remzero" and not e.cid.startswith("overflow:"): ctx.viol("host:panic:" + e.cid, "the host sender can panic (%s)" % e.cid, e.at())
        if not ctx.expect(p.end == "return", "host:end", "the host sender can end with %s" % p.end, where): continue
        subs = calls(p, "Queue::submit"); comps = calls(p, "Queue::next_complete")
        first = bool(subs) and strip(subs[0].args[1]) == data
        ctx.expect(first, "host:data", "the frame is not handed to the endpoint as given", subs[0].at() if subs else where)
        ctx.expect(all(E.clen(strip(s.args[1])) == I(0) for s in subs[1:]) and len(subs) <= 2, "host:extra", "more than the frame and one empty packet is handed to the endpoint", (subs or [None])[-1].at() if subs else where)
        ctx.expect(not comps or p.trace.index(comps[0]) > p.trace.index(subs[-1]), "host:order", "the empty packet is handed over only after waiting for the frame: an interruption leaves the frame open", where)
        # is an empty packet due?
        opt = [i for i, x in enumerate(a["variants"][0]["fields"])]
        due = None
        rems = [t for t in p.facts if t[0] == "eq" and any(mentions(t, lambda u: u[0] == "op" and u[1] == "Rem" and u[2] == E.clen(data)) for _ in (0,))]
        for t in rems:
            z = t[1] if t[2] == I(0) else t[2] if t[1] == I(0) else None
            if z is not None and z[0] == "op" and z[3][0] == "fld" and is_self(z[3]): due = p.facts[t]
        if due is None:
            for t in p.facts:
                if t[0] == "discr" and is_self(t[1]) and p.facts[t] == 0: due = 1        # packet size not known
        if due is None: ctx.viol("host:due", "cannot tell from the packet size whether an empty packet is due", where); continue
        ctx.expect((len(subs) == 2) == bool(due), "host:terminator", "a frame whose length %s a multiple of the packet size is %s by an empty packet" % ("is or may be" if due else "is not", "followed" if len(subs) == 2 else "not followed"), where)
        sts = [awaited(p, c) for c in comps]
        bad = None
        for i, r in enumerate(sts):
            if r is None: ctx.viol("host:await", "a completion is not awaited", comps[i].at()); continue
            v = poss(ctx, p, ("fld", r, 0, 1), RES)
            if 1 in v and 0 not in v: bad = bad or r
            elif v != {0}: ctx.viol("host:ignored", "the outcome of a transfer is ignored", comps[i].at())
        isok = p.ret[0] == "agg" and p.ret[3] == 0
        if bad is not None:
            seen["error"] += 1
            ctx.expect(p.ret[0] == "agg" and p.ret[3] == 1 and mentions(p.ret, lambda t: t == fld(("fld", bad, 0, 1), 1, 0)), "host:error", "a failed transfer is not reported to the caller", where)
        else:
            ctx.expect(isok and len(comps) == len(subs), "host:unfinished", "success is reported before every transfer of the frame completed", where)
            seen["terminated" if due else "plain"] += 1
    for k, v in seen.items(): ctx.floor("host sender: " + k, v, 1)
    ctx.rule("host sender paths", len(ps))
def is_self(t):
    """a place inside *self"""
    while t[0] == "fld": t = t[1]
    return t == ("deref", ("arg", 1))

def host_receive(ctx):
    tr = [g for g in ctx.p.impl_fn("host_client::WireRx", "receive", lambda t: "NusbWireRx" in t.s)]
    if len(tr) != 1: raise Missing("<NusbWireRx as WireRx>::receive")
    where = at(tr[0])
    TE = find_adt(ctx, "nusb::transfer::TransferError")
    want_q = None          # how many requests an empty queue is filled up to
    seen = {}
    q0 = -1
    while want_q is None or q0 < want_q:
        q0 += 1
        E = ctx.engine(hooks=queue_hooks(), merge=True)
        prep = lambda st: st.mem.__setitem__(QN, I(q0))
        ps = []
        for p in ctx.run(tr[0], E, prep=prep):
            if p.end == "return" and p.ret is not None and p.ret[0] == "agg" and p.ret[1] == "coroutine":
                E2 = ctx.engine(hooks=queue_hooks(), merge=True)
                v = p.ret
                ps += ctx.run(ctx.p.fns[v[2]], E2, args=[v], subst=dict(v[5]) if len(v) > 5 else {}, prep=lambda st, m=dict(p.mem): (st.mem.update(m), setattr(st, "ctr", 1000)))
            else: ps.append(p)
        if want_q is None:
            ns = {c[0].x["n"] for c in (calls(p, "Queue::next_complete") for p in ps) if c and is_int(c[0].x["n"])}
            if not ns: raise Missing("the number of read requests kept in flight")
            want_q = max(n[1] for n in ns)
            ctx.expect(2 <= want_q <= 64, "in-flight", "only %d read requests are kept in flight" % want_q, where)
        heads = {p.note[1:] for p in ps if p.end == "loop" and p.note and p.note[0] == "iteration"}
        for p in ps:
            if p.end == "unreachable": continue
            if any(e.kind == "widen" and (e.fn, e.line) in heads for e in p.trace): continue    # later iterations start in a state that is covered by another q0
            receive_path(ctx, p, want_q, where, seen, TE, E)
    # errors are counted in a row: a transfer with data starts the count again
    for fl in sorted(seen.pop("counter", ()), key=repr):
        for p, E in seen.get("good", ()):
            v = fl
            if v[0] == "fld" and v[1] == ("deref", ("arg", 1)): v = E.read(p, ("ext", ("arg", 1)), (("f", v[2], v[3]),))
            ctx.expect(known(p, Eq(v, I(0))) == 1, "not-reset", "the count of errors in a row goes on after a transfer that delivered data", where)
    seen.pop("good", None)
    for k in ("data", "fatal", "retry", "gives up"): ctx.floor("host receiver: " + k, seen.get(k, 0), 1)
    ctx.rule("host receiver: outcomes %s" % seen, sum(seen.values()))
def receive_path(ctx, p, want_q, where, seen, TE, E):
    for e in p.trace:
        if e.kind in ("panic", "maypanic") and not e.cid.startswith("overflow:"): ctx.viol("panic:" + e.cid, "the host receiver can panic (%s)" % e.cid, e.at())
    if p.end not in ("return", "loop"): ctx.viol("end", "the host receiver can end with %s (%s)" % (p.end, p.note), where); return
    comps = calls(p, "Queue::next_complete")
    if not ctx.expect(bool(comps), "no-wait", "returns or goes round without waiting for a transfer", where): return
    w = comps[0]
    ctx.expect(w.x["n"] == I(want_q), "refill", "waits with %s requests in flight instead of %d" % (show(w.x["n"]), want_q), w.at())
    for c in comps[1:]: ctx.expect(is_int(c.x["n"]) and c.x["n"][1] >= 1, "drain-empty", "waits for a transfer although none is in flight (nusb panics)", c.at())
    R = awaited(p, w)
    if R is None: ctx.viol("await", "a completion is not awaited", w.at()); return
    status = ("fld", R, 0, 1); dat = ("fld", R, 0, 0)
    vs = poss(ctx, p, status, RES)
    qn = p.mem[QN]
    ctx.expect(is_int(qn) and 0 <= qn[1] <= want_q, "queue-bound", "more requests than the queue holds stay in flight (%s)" % show(qn), where)
    if vs == {0}:
        seen["data"] = seen.get("data", 0) + 1
        ctx.expect(p.end == "return" and p.ret == ok(dat), "data", "a completed transfer's data is not returned as received (%s)" % show(p.ret or UNIT), where)
        seen.setdefault("good", []).append((p, E))
        ctx.expect(len(comps) == 1 and not calls(p, "Queue::cancel_all"), "data-lost", "another transfer is taken from the queue although one just completed with data", where)
        return
    if vs != {1}: ctx.viol("ignored", "the outcome of a transfer is ignored", w.at()); return
    e = fld(status, 1, 0)
    kinds = {v["name"] for i, v in enumerate(ctx.p.adt(TE)["variants"]) if i in poss(ctx, p, e, TE)}
    if p.end == "return":
        seen["fatal"] = seen.get("fatal", 0) + 1
        ctx.expect(p.ret[0] == "agg" and p.ret[3] == 1 and mentions(p.ret, lambda t: t == e), "error", "a failed transfer is not reported as its own error (%s)" % show(p.ret), where)
        if kinds & {"Stall"} and not calls(p, "Queue::clear_halt"): seen["gives up"] = seen.get("gives up", 0) + 1
        return
    # goes on after an error: only a bounded number of times in a row, and only for a stall
    seen["retry"] = seen.get("retry", 0) + 1
    ctx.expect(kinds and kinds <= {"Stall", "Unknown"}, "kinds", "goes on after the transfer error(s) %s" % sorted(kinds), w.at())
    st = [s for s in p.trace if s.kind == "store" and is_self(s.args[0])]
    cnt = [s for s in st if s.args[1] == add(s.args[0], I(1))]
    ctx.expect(any(any(numdom.entails(p.lin, numdom.ge(I(k), s.args[1])) for k in (10, 16, 32, 64, 100, 255)) for s in cnt) and bool(cnt), "unbounded", "goes on after an error without a limit on the number of errors in a row", w.at())
    for c in cnt: seen.setdefault("counter", set()).add(c.args[0])
    cl = calls(p, "Queue::clear_halt"); ca = calls(p, "Queue::cancel_all")
    ctx.expect(len(ca) >= 1 and len(cl) == 1, "recovery", "goes on after a stall without cancelling the requests in flight and clearing the stall", w.at())
    for c in cl:
        ctx.expect(c.x["n"] == I(0), "clear-inflight", "clears the stall while %s requests are still in flight" % show(c.x["n"]), c.at())
        ctx.expect(poss(ctx, p, c.res, RES) == {0}, "clear-failed", "goes on although clearing the stall failed", c.at())
    ctx.expect(all(poss(ctx, p, ("fld", awaited(p, c) or UNDEF, 0, 1), RES) for c in comps[1:]), "drain", "", where)

@check("C24", 'The host-side receiver is interpreted with arbitrary completion results and a ghost count of requests in flight. Rules: data returned is that of the completion just taken, once; before each wait the queue is refilled to its target; an error completion is never returned as data; a stall leads to a clear-halt attempt and the counter of consecutive recoveries is bounded on every path, exceeding it or any other status returns an error.',
       ['nusb Queue: next_complete yields completions in submission order; submit adds one request'])
def c24(ctx):
    host_receive(ctx)

# ------------------------------------------------------------------ device side receive
def read_hooks(L):
    def rd(E, st, ev, c):
        ev.x = {"view": M.view(E, st, c.args[1]), "pos": st.mem[POS], "lin": list(st.lin), "facts": dict(st.facts)}
        ev.x["full"] = numdom.entails(st.lin, numdom.ge(st.mem[POS], L))
        st.mem[("ghost", "win")] = ev.x["view"][3]
        st.mem[("ghost", "full")] = I(int(ev.x["full"]))
    def done(E, st, ev, c):
        n = fld(ev.res, 0, 0)
        st.lin.append(numdom.ge(I(PKT), n)); st.lin.append(numdom.ge(st.mem[("ghost", "win")], n))
        ev.x = n
        if st.mem[("ghost", "full")] == I(0): st.mem[POS] = add(st.mem[POS], n)      # counts up to the size of the buffer
    return {"EndpointOut::read": rd, "await:EndpointOut::read": done}
def receive_frames(ctx, ver, length=None, out=None):
    fs = [f for f in ctx.p.impl_fn("server::WireRx", "receive", lambda t: True) if "::%s::" % ver in f.key]
    if len(fs) != 1: raise Missing("WireRx::receive of " + ver)
    f = fs[0]; where = at(f); tag = ver[-4:]
    RXK = find_adt(ctx, "server::WireRxErrorKind"); EE = find_adt(ctx, "EndpointError")
    cc = variant_index(ctx, RXK, "ConnectionClosed"); big = variant_index(ctx, RXK, "ReceivedMessageTooLarge")
    BUF = ("ext", ("arg", 2))
    bad = []
    def viol(k, m, w=""): bad.append((k, m, w))
    def expect(c, k, m, w=""):
        ctx.cov["obligations"] += 1
        if not c: viol(k, m, w)
        return c
    if length is None: E = ctx.engine(merge=True); args = None; L = E.clen(("deref", ("arg", 2)))
    else: E = ctx.engine(unroll_nondet=True, unroll=length // PKT + 3, max_paths=2000); args = [("arg", 1), ("slice", BUF, (), I(0), I(length))]; L = I(length)
    E.hooks = read_hooks(L)
    def prep(st): st.mem[POS] = I(0); st.mem[("ghost", "win")] = st.mem[("ghost", "full")] = I(0)
    ps = ctx.run(f, E, prep=prep, args=args, strict=False)
    if out is not None: out |= thresholds(ps)
    if E.truncated: return [(tag + ":budget", "receive: too many paths to follow", where)]
    seen = {"frame": 0, "next packet": 0, "too large": 0, "disabled": 0, "overflow": 0, "draining": 0}
    for p in ps:
        if p.end == "unreachable": continue
        for e in p.trace:
            if e.kind in ("panic", "maypanic") and not e.cid.startswith("overflow:"): viol("%s:panic:%s" % (tag, e.cid), "receive can panic (%s)" % e.cid, e.at())
        if p.end not in ("return", "loop"): viol(tag + ":end", "receive can end with %s (%s)" % (p.end, p.note), where); continue
        rs = calls(p, "EndpointOut::read")
        lw = max([i for i, e in enumerate(p.trace) if e.kind == "widen"], default=-1)
        rs = [r for r in rs if p.trace.index(r) > lw]
        if not rs:
            viol(tag + ":no-read", "receive ends or goes round without reading a packet", where); continue
        for k, r in enumerate(rs):
            x = r.x; q = P2(x); cell, path, lo, ln = x["view"]
            fill = (cell, path) == (BUF, ()) and eq0(q, lo, x["pos"]) and eq0(q, add(lo, ln), L)
            full = x["full"]
            expect(fill or full, "%s:place" % tag, "a packet is not stored behind the previous one (at %s, %s bytes received)" % (show(lo), show(x["pos"])), r.at())
            if full and not fill: seen["draining"] += 1
            R = awaited(p, r)
            if R is None: viol(tag + ":await", "a read is not awaited", r.at()); continue
            vs = poss(ctx, p, R, RES); n = fld(R, 0, 0)
            last = k == len(rs) - 1
            if vs == {1}:
                ek = poss(ctx, p, fld(R, 1, 0), EE)
                names = {ctx.p.adt(EE)["variants"][i]["name"] for i in ek}
                want = big if names == {"BufferOverflow"} else cc if names == {"Disabled"} else None
                expect(last and p.end == "return" and want is not None and p.ret == err(("agg", "adt", RXK, want, ())), "%s:error" % tag, "the endpoint error %s is reported as %s" % ("/".join(sorted(names)), show(p.ret or UNIT)), r.at())
                seen["overflow" if want == big else "disabled"] += 1
                continue
            if vs != {0}: viol(tag + ":ignored", "the result of a read is ignored", r.at()); continue
            whole = known(p, Eq(n, I(PKT)))
            if whole is None: viol(tag + ":short", "whether a packet ends the frame is not decided by its being shorter than %d bytes" % PKT, r.at()); continue
            if whole == 1:
                expect(not last or p.end == "loop", tag + ":early", "returns %s after a packet that does not end the frame" % show(p.ret or UNIT), r.at())
                seen["next packet"] += 1
            else:
                if full and not fill or full and eq0(q, ln, I(0)):
                    expect(last and p.end == "return" and p.ret == err(("agg", "adt", RXK, big, ())), tag + ":too-large", "a frame that does not fit is reported as %s" % show(p.ret or UNIT), r.at())
                    seen["too large"] += 1
                else:
                    good = last and p.end == "return" and p.ret is not None and p.ret[0] == "agg" and p.ret[3] == 0
                    if good:
                        v = M.view(E, p, p.ret[4][0])
                        good = (v[0], v[1]) == (BUF, ()) and eq0(p, v[2], I(0)) and eq0(p, v[3], add(x["pos"], n))
                    expect(good, tag + ":frame", "a complete frame of %s bytes is returned as %s" % (show(add(x["pos"], n)), show(p.ret or UNIT)), r.at())
                    seen["frame"] += 1
    if length is None:
        for k, v in seen.items(): expect(v >= 1, "%s:never:%s" % (tag, k), "receive: no path covers the case '%s'" % k, where)
    ctx.sample({"fn": f.key, "paths": len(ps), "seen": seen}); ctx.rule("device receive", len(ps))
    return bad
def device_receive(ctx, ver):
    ths = set()
    bad = receive_frames(ctx, ver, out=ths)
    if bad:
        # the induction over the packets is open: the same obligations for buffers of 0 to 5 packets,
        # and for buffers around every number the code compares lengths with
        far = sorted(c for c in ths if 5 * PKT < c)
        ns = list(range(0, 6)) + sorted({c // PKT + d for c in far if c <= CAP for d in (0, 1, 2)})
        for n in ns:
            b = receive_frames(ctx, ver, n * PKT)
            if b:
                for k, m, w in b: ctx.viol(k, m + " (buffer of %d bytes)" % (n * PKT), w)
                return
        if any(c > CAP for c in far):
            for k, m, w in bad: ctx.viol(k, m + " (not shown for buffers of more than %d bytes)" % CAP, w)
            return
        ctx.rule("device receive: by buffer length (induction open: %s)" % bad[0][0], len(ns))
@check("C17", 'The device-side receivers are interpreted with a symbolic buffer and arbitrary read results; the collection loop is summarised inductively (bytes collected so far = concatenation of packets), with a case split over 0 to 5 packets only when the invariant is open. Rules: Ok is returned only after a short packet, with exactly the collected prefix; no room left leads to draining until a short packet and the too-large error; disabled maps to closed.',
       ['EndpointOut::read Ok(n) implies n <= buffer length and n <= packet size', 'the receive buffer is a multiple of 64 bytes'])
def c17(ctx):
    for ver in VERS: device_receive(ctx, ver)
