"""C11-C14: the host client: requests, closing, subscriptions, widths."""
from checks import check
from checks.header import Names, KW, SW, at, panics
from checks.keys import fold, sig
from checks.util import *
from terms import *
from core import Missing
import numdom, models as M

def veq_models(prog):
    """comparisons of keys stay symbolic: ("veq", a, b)"""
    base = {}
    def mk(old, neg):
        def f(E, st, c, a, b):
            t = c.self.split("<")[0].lstrip("&")
            if t.endswith(("header::VarKey", "key::Key")):
                x, y = sorted((M.strip(E.deep(st, a)), M.strip(E.deep(st, b))), key=repr)
                v = TRUE if x == y else ("veq", x, y)
                return Not(v) if neg else v
            return old(E, st, c, a, b)
        return f
    for n, neg in (("eq", False), ("ne", True)):
        k = "core::cmp::PartialEq::" + n
        base[k] = mk(M.MODELS[k], neg)
    return base

HOPAQUE = ("VarHeader::take_from_slice",)
def base(v):
    """the value a (repeatedly modified) value started as"""
    while True:
        if v[0] == "mod": v = v[3]
        elif v[0] in ("&", "upd"): v = v[1]
        elif v[0] == "agg" and v[2] is not None and v[2].endswith("pin::Pin"): v = v[4][0]
        else: break
    return v
def arc(v): return ("call", "deref", "", v)
def place(v): return ("deref", arc(v))

class Client:
    """fields of the client and of what it shares with its workers, found from the constructor"""
    def __init__(self, ctx):
        self.ctx = ctx
        f = self.f = ctx.inherent("host_client::HostClient", "new_with_wire_and_config")
        ps = [p for p in ctx.run(f) if p.end == "return"]
        if len(ps) != 1: raise Missing("HostClient::new_with_wire_and_config as a plain constructor")
        p = self.p = ps[0]
        r = p.ret
        if r[0] != "agg": raise Missing("the client built by new_with_wire_and_config")
        by = {e.res: e for e in p.trace if e.kind == "call"}
        def made(v, suffix):
            e = by.get(v)
            return e if e is not None and e.cid.endswith(suffix) else None
        self.ret = r[4]
        self.i = {}
        for n, v in enumerate(r[4]):
            e = made(v, "Arc::new")
            if v[0] == "call" and v[1] == "Arc::new": inner = v[3]
            elif e is not None: inner = e.args[0]
            else: inner = None
            if inner is not None and inner[0] == "agg" and inner[2].endswith("HostContext"):
                self.i["ctx"] = n; self.hctx = inner
            elif inner is not None and made(inner, "Mutex::new") and made(inner, "Mutex::new").args[0][0] == "agg":
                self.i["subs"] = n; self.sub0 = made(inner, "Mutex::new").args[0]
            elif v[0] == "fld" and made(v[1], "mpsc::bounded::channel"): self.i["out"] = n; self.chan = v[1]; self.chanev = made(v[1], "channel")
            elif made(v, "Key::for_path"): self.i["err"] = n; self.errev = made(v, "Key::for_path")
            elif v[0] == "agg" and v[2] is not None and v[2].endswith("Stopper"): self.i["stop"] = n; self.stop0 = v
            elif v[0] == "fld" and mentions(v, lambda t: t == ("arg", 4)): self.i["seq"] = n; self.seq0 = v
        need = {"ctx", "subs", "out", "err", "stop", "seq"}
        if set(self.i) != need: raise Missing("fields of HostClient set by its constructor: " + ", ".join(sorted(need - set(self.i))))
        # HostContext
        self.h = {}
        for n, v in enumerate(self.hctx[4]):
            if made(v, "RwLock::new"): self.h["kkind"] = n; self.kk0 = made(v, "RwLock::new").args[0]
            elif made(v, "WaitMap::new"): self.h["map"] = n
            elif made(v, "Atomic::new"): self.h["seq"] = n
            elif v[0] == "fld": self.h["timeout"] = n; self.timeout0 = v
        if set(self.h) != {"kkind", "map", "seq", "timeout"}: raise Missing("fields of HostContext set by the constructor")
        # Subscriptions
        self.s = {}
        a = ctx.p.adt(self.sub0[2])
        for n, fd in enumerate(a["variants"][0]["fields"]):
            t = self.ftype(a, n)
            if "broadcast::Sender" in t: self.s["multi"] = n
            elif "mpsc" in t: self.s["excl"] = n
            elif t == "bool": self.s["stopped"] = n
        if set(self.s) != {"multi", "excl", "stopped"}: raise Missing("fields of Subscriptions")
        self.spawns = calls(p, "WireSpawn::spawn")
        # RpcFrame
        fr = find_adt(ctx, "host_client::RpcFrame")
        self.fh, self.fb = field_index(ctx, fr, "header"), field_index(ctx, fr, "body"); self.RF = fr
        self.HE = find_adt(ctx, "host_client::HostErr")
        self.he = {n: variant_index(ctx, self.HE, n) for n in ("Wire", "BadResponse", "Postcard", "Closed")}
    def ftype(self, a, n):
        f = a["variants"][0]["fields"][n]
        t = f.get("ty") if isinstance(f, dict) else f[1]
        if isinstance(t, int):
            for c in self.ctx.p.crates.values():
                if any(x is a or x == a for x in c.adts.values()) if isinstance(c.adts, dict) else a in c.adts: return c.types[t].s
        return str(t)
    # terms as seen from a method with `&self` as argument 1
    def me(self, k): return ("fld", ("deref", ("arg", 1)), 0, self.i[k])
    def meref(self, k): return ("ref", ("ext", ("arg", 1)), (("f", 0, self.i[k]),))
    def hplace(self, k, ctxterm=None): return ("fld", place(ctxterm or self.me("ctx")), 0, self.h[k])
    def stopq(self, stop):
        """the wait queue behind a stopper value"""
        return arc(fld(stop, 0, 0))

def seen_ref(v): return v[1] if v[0] == "&" else ("deref", v)

def kind_of(ctx, p, N, kk):
    """width the VarKeyKind term has on this path"""
    if kk[0] == "agg": return {i: w for w, i in N.kkvar.items()}[kk[3]]
    vs = poss(ctx, p, kk, N.KK)
    return {i: w for w, i in N.kkvar.items()}[next(iter(vs))] if len(vs) == 1 else None

def widths_of(ctx, p, N, kk):
    """the widths the VarKeyKind term may have on this path"""
    m = {i: w for w, i in N.kkvar.items()}
    return {m[kk[3]]} if kk[0] == "agg" else {m[i] for i in poss(ctx, p, kk, N.KK)}
def kreads(C, p, before=None):
    """values of the shared key width read on this path"""
    out = []
    for e in calls(p, "RwLock::read", "RwLock::write"):
        if before is not None and p.trace.index(e) > before: continue
        if seen_ref(e.args[0]) == C.hplace("kkind"): out.append(place(fld(e.res, 0, 0)))
    return out

def key_at(ctx, N, E, v, full):
    """w if v is the VarKey holding `full` (8 bytes) folded to w bytes"""
    if v[0] != "agg" or v[2] != N.VK: return None
    for w, i in N.kvar.items():
        if v[3] == i:
            g = bytes_of(E, v[4][0], w)
            return w if g == fold(full, w) else None
    return None

def k8(key): return tuple(("elem", ("kb", key), I(i)) for i in range(8))

def request_paths(ctx, C, N, which):
    """(label, E, request key bytes, request key width, sequence value, body term, response key, paths)"""
    runs = []
    if which == "send_resp":
        f = ctx.inherent("host_client::HostClient", "send_resp")
        E = ctx.engine(max_paths=20000)
        runs.append(("send_resp", f, E, k8(("const", "postcard_rpc::Endpoint::REQ_KEY", "E")), 8, None, None, ("const", "postcard_rpc::Endpoint::RESP_KEY", "E"), ctx.run(f, E)))
        return runs
    f = ctx.inherent("host_client::HostClient", "send_resp_raw")
    combos = [(kw, 4) for kw in KW] + [(8, 1), (8, 2)]
    for kw, sw in combos:
        E = ctx.engine(max_paths=20000)
        h, kb, sv = N.mkhdr(kw, sw)
        fv = [None, None]; fv[C.fh] = h; fv[C.fb] = ("sym", "body")
        frame = ("agg", "adt", C.RF, 0, tuple(fv))
        runs.append(("send_resp_raw:%d:%d" % (kw, sw), f, E, kb, kw, (sw, sv), ("sym", "body"), ("arg", 3), ctx.run(f, E, args=[("arg", 1), frame, ("arg", 3)])))
    return runs

def is_stop_wait(C, e):
    return e.kind == "await" and e.cid.endswith("WaitQueue::wait")

def requests(ctx, which, widths):
    """C11 (widths=False) / C14 (widths=True) obligations of one request function"""
    C = Client(ctx); N = Names(ctx)
    for label, f, E, kb, kw, seq, body, rkey, ps in request_paths(ctx, C, N, which):
        W = at(f); tag = label.split(":")[0]
        seen = {"closed": 0, "ok": 0, "err": 0, "regfail": 0, "sendfail": 0, "wirerr": 0}
        for p in ps:
            if p.end == "panic":
                # the shared lock being poisoned, or the encoder failing
                last = [e for e in p.trace if e.kind in ("panic", "maypanic")]
                okp = last and last[-1].cid == "unwrap of Err" and [e for e in p.trace if e.kind == "call"][-1].cid.endswith(("RwLock::read", "RwLock::write", "to_stdvec", "to_allocvec"))
                if not okp: ctx.viol(tag + ":panic", "%s can panic: %s" % (tag, p.note), W)
                continue
            if p.end != "return":
                if p.end != "unreachable": ctx.viol(tag + ":end:" + p.end, "%s can end with %s" % (tag, p.end), W)
                continue
            for e in p.trace:
                if e.kind in ("maypanic", "panic"): ctx.viol(tag + ":maypanic:" + e.cid, "%s can panic (%s)" % (tag, e.cid), e.at())
            tr = p.trace
            sends = [e for e in calls(p, "mpsc::bounded::Sender::send", "mpsc::bounded::Sender::try_send", "mpsc::bounded::Sender::send_timeout", "mpsc::bounded::Sender::blocking_send") ]
            waits = calls(p, "WaitMap::wait")
            enq = []           # (wait call, result of registering it)
            for e in calls(p, "Wait::enqueue"):
                w = base(E.unpin(None, e.args[0]) if e.args[0][0] == "agg" else e.args[0])
                enq.append((w, awaited(p, e), e))
            if not widths: ctx.expect(len(sends) <= 1, tag + ":sent-twice", "%s hands its request to the transport %d times" % (tag, len(sends)), W, "sent once")
            if len(sends) > 1: continue
            ret = p.ret
            iserr = ret is not None and ret[0] == "agg" and ret[3] == 1
            hv = ret[4][0] if iserr else None
            hvar = hv[3] if hv is not None and hv[0] == "agg" and hv[2] == C.HE else None
            regbad = any(r is not None and poss(ctx, p, r, RES) == {1} for _, r, _ in enq)
            if not sends:
                if widths: continue
                seen["regfail"] += 1
                ctx.expect(regbad or known_closed(C, p), tag + ":never-sent", "%s can finish without sending although registering for the reply succeeded" % tag, W, "sent once")
                ctx.expect(iserr and hvar in (C.he["Closed"], C.he["BadResponse"]), tag + ":regfail-result", "a request that could not be registered returns %s" % show(ret), W, "registration failure")
                # the only failure that may be reported as something else than closed is a duplicate
                if hvar == C.he["BadResponse"]:
                    we = "maitake_sync::wait_map::WaitError"
                    dup = [r for _, r, _ in enq if r is not None and poss(ctx, p, r, RES) == {1}]
                    a = ctx.p.adt(we)
                    if a is not None:
                        di = variant_index(ctx, we, "Duplicate")
                        ctx.expect(any(poss(ctx, p, fld(r, 1, 0), we) == {di} for r in dup), tag + ":regfail-kind", "a failure to register other than a reused sequence number is not reported as closed", W)
                elif duplicate(ctx, p, enq):
                    ctx.viol(tag + ":duplicate-kind", "%s reports a sequence number that is still in use as a closed connection" % tag, W)
                continue
            s = sends[0]
            si = tr.index(s)
            # ---- what is sent
            fr = s.args[1]
            if fr[0] != "agg" or fr[2] != C.RF: ctx.viol(tag + ":frame", "%s sends %s" % (tag, show(fr)), s.at()); continue
            h = fr[4][C.fh]
            sk, ss = E.proj(h, ("f", 0, N.hkey)), E.proj(h, ("f", 0, N.hseq))
            ks = [k for k in (kind_of(ctx, p, N, x) for x in kreads(C, p)) if k is not None]
            gw = sb = None
            if sk[0] == "agg" and sk[2] == N.VK:
                gw = {i: w for w, i in N.kvar.items()}[sk[3]]
                sb = bytes_of(E, sk[4][0], gw)
            good = gw is not None and (sb == fold(kb, gw) if gw < kw else (gw == kw and sb == kb))
            if not widths:
                ctx.expect(good, tag + ":request-key", "%s sends its request under the key %s" % (tag, show(sk, 9)), s.at(), "request key")
                if body is not None: ctx.expect(fr[4][C.fb] == body, tag + ":body", "%s sends the body %s" % (tag, show(fr[4][C.fb])), s.at(), "request body")
                else:
                    enc = calls(p, "to_stdvec", "to_allocvec", "to_vec")
                    okb = len(enc) == 1 and fr[4][C.fb] == fld(enc[0].res, 0, 0) and strip(enc[0].args[0]) in (("arg", 2), ("deref", ("arg", 2)))
                    ctx.expect(okb, tag + ":body", "send_resp does not send the encoding of the request it was given", s.at(), "request body")
                ctx.expect(s.raw[0] == C.meref("out"), tag + ":queue", "%s does not send through the client's own queue" % tag, s.at())
            # ---- sequence number
            sv = None
            if ss[0] == "agg" and ss[2] == N.VS: sw = {i: w for w, i in N.svar.items()}[ss[3]]; sv = ss[4][0]
            if seq is None:
                fa = calls(p, "Atomic::fetch_add")
                okq = len(fa) == 1 and seen_ref(fa[0].args[0]) == C.hplace("seq") and fa[0].args[1] == I(1)
                if not widths: ctx.expect(okq, tag + ":fresh-seq", "send_resp does not take a fresh number from the shared counter exactly once", W, "fresh sequence number")
                oseq = (4, fa[0].res) if okq else None
            else: oseq = seq
            if oseq is not None and sv is not None:
                wantv = oseq[1] if sw >= oseq[0] else ("op", "trunc", oseq[1], I(8 * sw))
                if not widths: ctx.expect(sv == wantv, tag + ":seq", "%s sends the sequence number %s" % (tag, show(ss)), s.at(), "sequence number")
                else:
                    kindt = C.me("seq")
                    kv = poss(ctx, p, kindt, N.SK)
                    kwid = {i: w for w, i in N.skvar.items()}[next(iter(kv))] if len(kv) == 1 else None
                    ctx.expect(kwid is not None and sw == kwid and sv == wantv, tag + ":seq-width", "%s sends a %s-byte sequence number where the client is configured for %s" % (tag, sw, kwid), s.at(), "sequence width")
            elif oseq is not None: ctx.viol(tag + ":seq", "%s sends the sequence number %s" % (tag, show(ss)), s.at())
            if widths:
                kk = set().union(*[widths_of(ctx, p, N, x) for x in kreads(C, p, si)])
                ctx.expect(bool(kk) and all(gw == min(kw, k) for k in kk), tag + ":key-width", "%s sends a %s-byte key while the server is believed to use %s" % (tag, gw, sorted(kk)), s.at(), "key width")
            # ---- both registrations precede it
            roles = {}
            for w in waits:
                if seen_ref(w.args[0]) != C.hplace("map"): continue
                wh = w.args[1]
                wk, ws = E.proj(wh, ("f", 0, N.hkey)), E.proj(wh, ("f", 0, N.hseq))
                for role, full in (("ok", k8(rkey)), ("err", k8(C.me("err")))):
                    ww = key_at(ctx, N, E, wk, full)
                    if ww is not None and ws == ss:
                        roles[role] = w.res
                        if widths: ctx.expect(ww in set(ks), tag + ":wait-width:" + role, "%s waits for a %d-byte key" % (tag, ww), w.at(), "key width")
            if not widths:
                for role, what in (("ok", "its response"), ("err", "the error reply")):
                    reg = [r for w, r, e in enq if w == roles.get(role) and r is not None and tr.index(e) < si]
                    done = any(poss(ctx, p, r, RES) == {0} for r in reg) and all(tr.index(awaits(p, e.res)[0]) < si for w, r, e in enq if w == roles.get(role) and r is not None)
                    ctx.expect(role in roles and done, tag + ":register:" + role, "%s sends its request before it is registered for %s under the same sequence number" % (tag, what), s.at(), "registered before sending")
            # ---- how it ends
            S = awaited(p, s)
            if S is None:
                # not awaited on this path: only because the connection closed first
                okc = any(is_stop_wait(C, e) for e in tr[si:]) and hvar == C.he["Closed"]
                if not widths: ctx.expect(okc, tag + ":send-await", "%s does not wait for its request to be queued" % tag, s.at())
                continue
            if poss(ctx, p, S, RES) == {1}:
                if not widths:
                    seen["sendfail"] += 1
                    ctx.expect(hvar == C.he["Closed"], tag + ":sendfail-result", "a request that could not be queued returns %s" % show(ret), s.at(), "send failure")
                continue
            if poss(ctx, p, S, RES) != {0}:
                ctx.viol(tag + ":send-ignored", "%s ignores whether its request was queued" % tag, s.at()); continue
            got = [(e, base(e.args[0])) for e in tr if e.kind == "await" and tr.index(e) > tr.index(awaits(p, s.res)[0])]
            ends = [("stop", e) for e, b in got if is_stop_wait(C, e)] + [("ok", e) for e, b in got if b == roles.get("ok")] + [("err", e) for e, b in got if b == roles.get("err")]
            if len(ends) != 1:
                if not widths: ctx.viol(tag + ":wait", "%s does not wait for exactly one of reply, error reply and closing" % tag, W)
                continue
            kind, e = ends[0]
            # what it raced against
            if not widths:
                sel = [x for x in tr if x.kind == "select" and tr.index(x) < tr.index(e)]
                alts = {role for x in sel[-1:] for a in x.args for role in ("ok", "err") if base(a) == roles.get(role)}
                stopw = any(mentions(a, lambda t: t == C.me("stop") or t == C.meref("stop")) for x in sel[-1:] for a in x.args)
                ctx.expect(alts == {"ok", "err"} and stopw, tag + ":race", "%s waits without watching for reply, error reply and closing together" % tag, e.at(), "waits for all outcomes")
            O = e.res
            if kind == "stop":
                seen["closed"] += 1
                if not widths: ctx.expect(hvar == C.he["Closed"], tag + ":closed-result", "closing the client makes a pending request return %s" % show(ret), e.at(), "closed")
                continue
            ov = poss(ctx, p, O, RES)
            if ov == {1}:
                if not widths: ctx.expect(hvar == C.he["Closed"], tag + ":wait-failed", "a failed wait makes the request return %s" % show(ret), e.at(), "closed")
                continue
            if ov != {0}: ctx.viol(tag + ":wait-ignored", "%s ignores whether waiting succeeded" % tag, e.at()); continue
            pr = fld(O, 0, 0); rh, rb = fld(pr, 0, 0), fld(pr, 0, 1)
            seen[kind] += 1
            if widths:
                adopted(ctx, C, N, E, p, tag, fld(rh, 0, N.hkey) if rh[0] != "agg" else E.proj(rh, ("f", 0, N.hkey)), e)
                continue
            dec = calls(p, "from_bytes", "take_from_bytes")
            if kind == "ok":
                if which == "send_resp":
                    okd = len(dec) == 1 and base(dec[0].args[0]) == rb
                    if not ctx.expect(okd, tag + ":decode", "send_resp does not decode the body of the response it received", e.at(), "response decoded"): continue
                    dv = poss(ctx, p, dec[0].res, RES)
                    if dv == {0}: okr = ret[0] == "agg" and ret[3] == 0 and ret[4][0] == fld(dec[0].res, 0, 0)
                    else: okr = hv == ("agg", "adt", C.HE, C.he["Postcard"], (fld(dec[0].res, 1, 0),)) and dv == {1}
                    ctx.expect(okr, tag + ":result", "a response makes send_resp return %s" % show(ret), e.at(), "response result")
                else:
                    rf = ret[4][0] if ret[0] == "agg" and ret[3] == 0 else None
                    okr = rf is not None and rf[0] == "agg" and rf[4][C.fh] == rh and rf[4][C.fb] == rb
                    ctx.expect(okr, tag + ":result", "a response makes %s return %s" % (tag, show(ret)), e.at(), "response result")
            else:
                okd = len(dec) == 1 and base(dec[0].args[0]) == rb
                if not ctx.expect(okd, tag + ":decode-err", "%s does not decode the error reply it received" % tag, e.at(), "error reply decoded"): continue
                dv = poss(ctx, p, dec[0].res, RES)
                if dv == {0}: seen["wirerr"] += 1; okr = hv == ("agg", "adt", C.HE, C.he["Wire"], (fld(dec[0].res, 0, 0),))
                else: okr = hv == ("agg", "adt", C.HE, C.he["Postcard"], (fld(dec[0].res, 1, 0),)) and dv == {1}
                ctx.expect(okr, tag + ":error-result", "an error reply makes %s return %s" % (tag, show(ret)), e.at(), "error result")
        if widths: need = ("ok", "err")
        else: need = tuple(seen)
        for k in need: ctx.expect(seen[k] > 0, tag + ":never:" + k, "no path of %s covers the outcome '%s'" % (label, k), W)
        ctx.sample({"fn": f.key, "run": label, "paths": len(ps), "outcomes": seen})

def duplicate(ctx, p, enq):
    """registering failed on this path, and possibly because the number is in use"""
    we = "maitake_sync::wait_map::WaitError"
    if ctx.p.adt(we) is None: return False
    di = variant_index(ctx, we, "Duplicate")
    return any(r is not None and poss(ctx, p, r, RES) == {1} and di in poss(ctx, p, fld(r, 1, 0), we) for _, r, _ in enq) and not known_closed_reg(ctx, p, enq)
def known_closed_reg(ctx, p, enq):
    we = "maitake_sync::wait_map::WaitError"
    ci = variant_index(ctx, we, "Closed")
    return any(r is not None and poss(ctx, p, r, RES) == {1} and poss(ctx, p, fld(r, 1, 0), we) == {ci} for _, r, _ in enq)

def adopted(ctx, C, N, E, p, tag, rkey, e):
    """after a reply the shared key width equals the width of the reply's key"""
    vs = poss(ctx, p, rkey, N.VK)
    kinds = {i: w for w, i in N.kvar.items()}
    st = []
    for x in p.trace:
        if x.kind != "store": continue
        for g in calls(p, "RwLock::write"):
            if seen_ref(g.args[0]) == C.hplace("kkind") and x.args[0] == place(fld(g.res, 0, 0)): st.append(x)
    if len(vs) != 1:
        ctx.viol(tag + ":adopt-unread", "%s does not look at the key width of the reply" % tag, e.at()); return
    want = kinds[next(iter(vs))]
    if st:
        got = kind_of(ctx, p, N, st[-1].args[1])
        ctx.expect(got == want, tag + ":adopt", "a reply with a %d-byte key makes the client use %s-byte keys" % (want, got), st[-1].at(), "width adopted")
    else:
        ks = {kind_of(ctx, p, N, x) for x in kreads(C, p)}
        ctx.expect(ks == {want}, tag + ":adopt", "a reply with a %d-byte key leaves the client at %s" % (want, sorted(map(str, ks))), e.at(), "width adopted")
    i = p.trace.index(e)
    for x in st: ctx.expect(p.trace.index(x) > i, tag + ":adopt-early", "the key width changes before a reply arrived", x.at())


# ------------------------------------------------------------------ workers
def worker(ctx, C, role):
    """(E, coroutine value, paths) of the task the constructor spawns around the transport's sender/receiver"""
    tr = ("arg", 1) if role == "out" else ("arg", 2)
    vs = []
    for e in C.spawns:
        v = strip(e.args[1])
        while v[0] == "agg" and v[1] == "adt" and len(v[4]) == 1: v = v[4][0]
        if mentions(v, lambda t: t == tr): vs.append(v)
    if len(vs) != 1 or vs[0][0] != "agg" or vs[0][1] != "coroutine": raise Missing("the %sgoing worker task spawned by the constructor" % role)
    v = vs[0]
    E = ctx.engine(opaque=HOPAQUE if role == "in" else (), models=veq_models(ctx.p), merge=True, max_paths=20000)
    def prep(st): st.ctr = 1000
    ps = ctx.run(ctx.p.fns[v[2]], E, args=[v], subst=dict(v[5]) if len(v) > 5 else {}, prep=prep)
    return E, ctx.p.fns[v[2]], ps

def since(p, *names):
    """(event, the events after it) for the last call of one of these functions"""
    for i in range(len(p.trace) - 1, -1, -1):
        e = p.trace[i]
        if e.kind == "call" and any(e.cid.endswith("::" + n) for n in names): return e, p.trace[i + 1:]
    return None, []
def out_of(seg, e):
    a = [x for x in seg if x.kind == "await" and x.args and x.args[0] == e.res]
    return a[0].res if len(a) == 1 else None
TRANSPORT_TX = "host_client::WireTx::send"; TRANSPORT_RX = "host_client::WireRx::receive"
CHSEND = ("broadcast::Sender::send", "mpsc::bounded::Sender::send", "mpsc::bounded::Sender::try_send", "mpsc::bounded::Sender::send_timeout", "mpsc::bounded::Sender::blocking_send")

def no_panic(ctx, tag, p, f):
    for e in p.trace:
        if e.kind in ("panic", "maypanic"): ctx.viol("%s:panic:%s" % (tag, e.cid), "%s can panic (%s)" % (tag, e.cid), e.at())
    if p.end not in ("return", "loop", "unreachable", "panic"): ctx.viol("%s:end:%s" % (tag, p.end), "%s can end with %s" % (tag, p.end), at(f))

def header_bytes(ctx, E, p, N, h):
    """encoding of the header value h on this path, or None"""
    from checks.header import sbyte, disc
    k, s = E.proj(h, ("f", 0, N.hkey)), E.proj(h, ("f", 0, N.hseq))
    kv, sv = poss(ctx, p, k, N.VK), poss(ctx, p, s, N.VS)
    if len(kv) != 1 or len(sv) != 1: return None
    kw = {i: w for w, i in N.kvar.items()}[next(iter(kv))]; sw = {i: w for w, i in N.svar.items()}[next(iter(sv))]
    kb = bytes_of(E, E.proj(k, ("f", N.kvar[kw], 0)), kw)
    x = E.proj(s, ("f", N.svar[sw], 0))
    return (I(disc(kw, sw)),) + tuple(kb) + tuple(sbyte(x, sw, i) for i in range(sw))

def out_worker(ctx, C, N):
    """every frame queued for the server is handed to the transport once, unchanged and in order"""
    E, f, ps = worker(ctx, C, "out")
    n = 0
    for p in ps:
        no_panic(ctx, "outgoing worker", p, f)
        sends = [e for e in p.trace if e.kind == "call" and e.cid.endswith(TRANSPORT_TX)]
        r, seg = since(p, "mpsc::bounded::Receiver::recv", "mpsc::bounded::Receiver::recv_many", "mpsc::bounded::Receiver::try_recv")
        if r is None:
            ctx.expect(not sends, "out:unasked", "the outgoing worker sends something it was not given", at(f)); continue
        first = next(e for e in p.trace if e.kind == "call" and "mpsc::bounded::Receiver::" in e.cid)
        ctx.expect(strip(first.args[0]) == fld(C.chan, 0, 1), "out:queue", "the outgoing worker does not take frames from the client's queue", first.at(), "same queue")
        R = out_of(seg, r)
        snd = [e for e in seg if e.kind == "call" and e.cid.endswith(TRANSPORT_TX)]
        got = poss(ctx, p, R, OPT) if R is not None else set()
        if got == {0}:
            ctx.expect(not snd, "out:unasked", "the outgoing worker sends something it was not given", at(f)); continue
        if got != {1}:
            if not snd: continue
            ctx.viol("out:unread", "the outgoing worker does not look at what it received", r.at()); continue
        if not ctx.expect(len(snd) == 1, "out:once", "a queued frame is handed to the transport %d times" % len(snd), r.at(), "sent once"): continue
        m = fld(R, 1, 0); h, b = fld(m, 0, C.fh), fld(m, 0, C.fb)
        data = snd[0].args[1]
        want = header_bytes(ctx, E, p, N, h)
        ok = False
        if want is not None and data[0] == "cat":
            k = len(want)
            tot = E.clen(data)
            ok = tot == add(I(k), E.clen(b)) and all(M.canonbyte(E.elem(data, I(i))) == want[i] for i in range(k)) and data[-1] == b
        ctx.expect(ok, "out:bytes", "the bytes given to the transport are not the frame's header followed by its body: %s" % show(data, 5), snd[0].at(), "frame bytes")
        S = out_of(seg, snd[0])
        ctx.expect(S is not None, "out:await", "the outgoing worker does not wait for the transport to take a frame", snd[0].at())
        n += 1
    ctx.floor("frames sent", n, 12)

def in_segments(ctx, C, N, E, ps, f):
    """(path, T result of decoding, header, body, events) per received frame"""
    for p in ps:
        r, seg = since(p, TRANSPORT_RX)
        if r is None: continue
        R = out_of(seg, r)
        yield p, r, seg, R

def decoded(seg):
    d = [e for e in seg if e.kind == "call" and e.cid.endswith("VarHeader::take_from_slice")]
    return d[0] if len(d) == 1 else None

def closedness(p, e):
    return p.end == "return"

def in_worker_wakes(ctx, C, N):
    """C11: a frame nobody subscribed to reaches the request waiting for it, unchanged"""
    E, f, ps = worker(ctx, C, "in")
    n = 0
    for p, r, seg, R in in_segments(ctx, C, N, E, ps, f):
        d = decoded(seg)
        wk = [e for e in seg if e.kind == "call" and e.cid.endswith("WaitMap::wake")]
        if d is None or poss(ctx, p, d.res, OPT) != {1}:
            ctx.expect(not wk, "in:wake-undecoded", "the incoming worker answers a request with a frame that has no valid header", at(f)); continue
        ctx.expect(base(d.args[0]) == fld(R, 0, 0), "in:decode", "the incoming worker does not decode the frame it received", d.at(), "decodes the frame")
        hb = fld(d.res, 1, 0); h, b = fld(hb, 0, 0), ("deref", fld(hb, 0, 1))
        sent = [e for e in seg if e.kind == "call" and any(e.cid.endswith(x) for x in CHSEND)]
        if not sent:
            if not ctx.expect(len(wk) == 1, "in:wake-once", "a frame that belongs to no subscription is offered to the waiting requests %d times" % len(wk), at(f), "offered once"): continue
        for w in wk:
            key, val_ = w.args[1], w.args[2]
            ok = strip(key) in (h, ("deref", h)) and val_[0] == "agg" and len(val_[4]) == 2 and val_[4][0] == h and strip(val_[4][1]) == b
            ctx.expect(ok, "in:wake-value", "a waiting request is given %s for the frame it should get" % show(val_, 5), w.at(), "reply unchanged")
            ctx.expect(seen_ref(w.args[0]) == ("fld", place(C.ret[C.i["ctx"]]), 0, C.h["map"]), "in:wake-map", "the incoming worker answers requests of another client", w.at())
            n += 1
    ctx.floor("frames offered to requests", n, 4)

def process_fns(ctx, C):
    for name in ("process", "process_did_wake"):
        f = ctx.inherent("host_client::HostContext", name)
        for p in ctx.run(f):
            no_panic(ctx, name, p, f)
            if p.end != "return": continue
            w = calls(p, "WaitMap::wake")
            if not ctx.expect(len(w) == 1, name + ":wake", "%s offers its frame to the waiting requests %d times" % (name, len(w)), at(f), "offered once"): continue
            a = ("arg", 2); v = w[0].args[2]
            ok = strip(w[0].args[1]) in (fld(a, 0, C.fh), ("deref", fld(a, 0, C.fh))) and v[0] == "agg" and v[4] == (fld(a, 0, C.fh), fld(a, 0, C.fb)) and seen_ref(w[0].args[0]) == ("fld", ("deref", ("arg", 1)), 0, C.h["map"])
            ctx.expect(ok, name + ":frame", "%s offers %s" % (name, show(v)), w[0].at(), "reply unchanged")
            WO = "maitake_sync::wait_map::WakeOutcome"
            vs = poss(ctx, p, w[0].res, WO)
            cl = variant_index(ctx, WO, "Closed"); wo = variant_index(ctx, WO, "Woke")
            iserr = p.ret[0] == "agg" and p.ret[3] == 1
            if iserr: ctx.expect(vs == {cl}, name + ":closed", "%s reports closed although it is not" % name, at(f), "outcome")
            else:
                ctx.expect(cl not in vs, name + ":closed", "%s hides that the client is closed" % name, at(f), "outcome")
                if name == "process_did_wake":
                    v = p.ret[4][0]
                    ctx.expect((v == TRUE and vs == {wo}) or (v == FALSE and wo not in vs), name + ":woke", "process_did_wake reports %s" % show(p.ret), at(f), "outcome")

def atomics(ctx):
    """the sequence counter is only ever taken from with fetch_add"""
    n = 0
    for k, fn in ctx.p.fns.items():
        if not k.startswith("postcard_rpc::host_client::"): continue
        for bb in fn.bbs:
            t = bb["t"]
            if t[0] != "call": continue
            c = callee_name(ctx, t)
            if c is None or "::atomic::Atomic" not in c: continue
            n += 1
            nm = c.rsplit("::", 1)[1]
            ctx.expect(nm in ("new", "fetch_add", "load"), "seq-counter:" + ctx.p.cid(k) + ":" + nm, "the shared sequence counter is changed with %s in %s" % (nm, k), at(fn), "counter only counts up")
    ctx.floor("atomic operations", n, 2)

def callee_name(ctx, t):
    k = t[1]
    return ctx.p.cid(k[1]["fn"]) if k[0] == "k" and "fn" in k[1] else None

# ------------------------------------------------------------------ C14: the rest
def publishes(ctx, C, N):
    """topic messages go out with the shared key width"""
    runs = []
    f = ctx.inherent("host_client::HostClient", "publish")
    E = ctx.engine(max_paths=20000)
    runs.append(("publish", f, E, k8(("const", "postcard_rpc::Topic::TOPIC_KEY", "T")), 8, ("arg", 2), None, ctx.run(f, E)))
    f = ctx.inherent("host_client::HostClient", "publish_raw")
    for kw in KW:
        E = ctx.engine(max_paths=20000)
        h, kb, sv = N.mkhdr(kw, 4)
        fv = [None, None]; fv[C.fh] = h; fv[C.fb] = ("sym", "body")
        runs.append(("publish_raw", f, E, kb, kw, E.proj(h, ("f", 0, N.hseq)), ("sym", "body"), ctx.run(f, E, args=[("arg", 1), ("agg", "adt", C.RF, 0, tuple(fv))])))
    for tag, f, E, kb, kw, seq, body, ps in runs:
        n = 0
        for p in ps:
            if p.end == "panic":
                last = [e for e in p.trace if e.kind == "call"]
                if not (p.note == "unwrap of Err" and last and last[-1].cid.endswith(("RwLock::read", "to_stdvec", "to_allocvec"))): ctx.viol(tag + ":panic", "%s can panic: %s" % (tag, p.note), at(f))
                continue
            if p.end != "return": continue
            sends = calls(p, *CHSEND)
            isok = p.ret[0] == "agg" and p.ret[3] == 0
            if not ctx.expect(len(sends) == 1 or (not sends and not isok), tag + ":once", "%s hands its message to the transport %d times" % (tag, len(sends)), at(f), "sent once"): continue
            if not sends:
                ctx.expect(known_closed(C, p), tag + ":unsent", "%s reports closed without sending although the client is open" % tag, at(f), "sent once")
                continue
            fr = sends[0].args[1]
            h = E.proj(fr, ("f", 0, C.fh)); b = E.proj(fr, ("f", 0, C.fb))
            sk, ss = E.proj(h, ("f", 0, N.hkey)), E.proj(h, ("f", 0, N.hseq))
            ks = set().union(*[widths_of(ctx, p, N, x) for x in kreads(C, p)])
            gw = key = None
            if sk[0] == "agg" and sk[2] == N.VK:
                gw = {i: w for w, i in N.kvar.items()}[sk[3]]; key = bytes_of(E, sk[4][0], gw)
            okk = gw is not None and key == (fold(kb, gw) if gw < kw else kb)
            okw = gw is not None and ks and all(gw == min(kw, k) for k in ks)
            ctx.expect(okk, tag + ":key", "%s sends its message under the key %s" % (tag, show(sk, 9)), sends[0].at(), "topic key")
            ctx.expect(okw, tag + ":key-width", "%s sends a %s-byte key while the server is believed to use %s" % (tag, gw, sorted(ks)), sends[0].at(), "key width")
            ctx.expect(ss == seq, tag + ":seq", "%s sends the sequence number %s" % (tag, show(ss)), sends[0].at(), "sequence number kept")
            if body is not None: okb = b == body
            else:
                enc = calls(p, "to_stdvec", "to_allocvec")
                okb = len(enc) == 1 and b == fld(enc[0].res, 0, 0) and strip(enc[0].args[0]) in (("arg", 3), ("deref", ("arg", 3)))
            ctx.expect(okb, tag + ":body", "%s sends the body %s" % (tag, show(b)), sends[0].at(), "message body")
            ctx.expect(sends[0].raw[0] == C.meref("out"), tag + ":queue", "%s does not send through the client's own queue" % tag, sends[0].at())
            if isok:
                S = awaited(p, sends[0])
                ctx.expect(S is not None and poss(ctx, p, S, RES) == {0}, tag + ":ok", "%s returns Ok although its message was not queued" % tag, at(f), "queued")
            n += 1
        ctx.floor(tag, n, 3)

def constructors(ctx, C, N):
    """every way to build a client passes its settings on"""
    ctx.expect(C.kk0[0] == "agg" and C.kk0[3] == N.kkvar[8], "new:key-width", "a new client starts with %s instead of the full key" % show(C.kk0), at(C.f), "initial width")
    CF = find_adt(ctx, "host_client::util::HostClientConfig")
    ix = {n: field_index(ctx, CF, n) for n in ("seq_kind", "err_uri_path", "outgoing_depth")}
    cfg = ("deref", ("arg", 4))
    ctx.expect(C.seq0 == fld(cfg, 0, ix["seq_kind"]), "new:seq-kind", "a new client's sequence width is %s" % show(C.seq0), at(C.f), "settings")
    ctx.expect(strip(C.errev.args[0]) in (fld(cfg, 0, ix["err_uri_path"]), ("deref", fld(cfg, 0, ix["err_uri_path"]))), "new:err-path", "a new client's error key is not made from the configured path", at(C.f), "settings")
    ctx.expect(C.chanev.args[0] == fld(cfg, 0, ix["outgoing_depth"]), "new:depth", "a new client's queue does not have the configured depth", at(C.f), "settings")
    f = ctx.inherent("host_client::HostClient", "new_with_wire")
    for p in ctx.run(f, opaque=("new_with_wire_and_config",)):
        if p.end != "return": continue
        c = calls(p, "new_with_wire_and_config")
        ok = len(c) == 1 and p.ret == c[0].res
        if ok:
            g = strip(c[0].args[3])
            ok = g[0] == "agg" and g[4][ix["seq_kind"]] == ("arg", 4) and strip(g[4][ix["err_uri_path"]]) == ("arg", 5) and g[4][ix["outgoing_depth"]] == ("arg", 6) and c[0].args[0] == ("arg", 1) and c[0].args[1] == ("arg", 2)
        ctx.expect(ok, "new_with_wire", "new_with_wire does not pass its settings on", at(f), "settings")
    # the transports' constructors: whatever VarSeqKind they are given reaches the client
    n = 0
    for k, fn in sorted(ctx.p.fns.items()):
        d = ctx.p.defs.get(k) or {}
        if not k.startswith("postcard_rpc::host_client::") or "{closure" in k: continue
        if not any(callee_name(ctx, bb["t"]) in (ctx.p.cid(f.key), ctx.p.cid(C.f.key)) for bb in fn.bbs if bb["t"][0] == "call") or fn.key == f.key: continue
        src = [i + 1 for i in range(fn.argc) if "VarSeqKind" in fn_argty(ctx, fn, i + 1)]
        ep = [i + 1 for i in range(fn.argc) if fn_argty(ctx, fn, i + 1).replace("'{erased} ", "").lstrip("&").strip().endswith("str")]
        E = ctx.engine(opaque=("new_with_wire_and_config", "new_with_wire"), max_paths=20000)
        for p in ctx.run(fn, E):
            for c in calls(p, "new_with_wire", "new_with_wire_and_config"):
                if c.cid.endswith("new_with_wire"): sk = c.args[3]; er = c.args[4]
                else:
                    g = strip(c.args[3]); sk = fld(g, 0, ix["seq_kind"]); er = fld(g, 0, ix["err_uri_path"])
                if len(src) == 1: ctx.expect(sk == ("arg", src[0]), "transport-ctor:seq:" + ctx.p.cid(k), "%s builds a client with sequence width %s" % (k, show(sk)), at(fn), "settings")
                n += 1
    ctx.floor("clients built by transports", n, 1)

def fn_argty(ctx, fn, i):
    try: return fn.crate.types[fn.locals[i]].s
    except Exception: return ""

# ------------------------------------------------------------------ C12
def stop_events(C, p, stop):
    q = C.stopq(stop)
    return ([e for e in p.trace if e.kind == "await" and e.cid.endswith("WaitQueue::wait") and base_wait(p, e, q)],
            [e for e in p.trace if e.kind == "call" and e.cid.endswith("WaitQueue::close") and strip(e.args[0]) == q])
def known_closed(C, p):
    """evidence on the path that the client has been closed (or lost its transport)"""
    q = C.stopq(C.me("stop"))
    if stop_events(C, p, C.me("stop"))[0]: return True
    for e in calls(p, "WaitQueue::is_closed"):
        if strip(e.args[0]) == q and p.facts.get(e.res) == 1: return True
    for e in calls(p, "mpsc::bounded::Sender::is_closed"):
        if strip(e.args[0]) == C.me("out") and p.facts.get(e.res) == 1: return True
    return False
def base_wait(p, e, q):
    w = [x for x in p.trace if x.kind == "call" and x.res == base(e.args[0])]
    return bool(w) and strip(w[0].args[0]) == q

def workers_stop(ctx, C, N):
    stop = C.ret[C.i["stop"]]
    q = C.stopq(stop)
    subs = C.ret[C.i["subs"]]
    for role in ("out", "in"):
        E, f, ps = worker(ctx, C, role)
        tag = role + "going worker" if role == "out" else "incoming worker"
        k = role
        kinds = set()
        for p in ps:
            no_panic(ctx, tag, p, f)
            tr = [e for e in p.trace if e.kind in ("call", "await", "select", "store")]
            # the whole operation races against the stop signal
            sel = [e for e in tr if e.kind == "select"]
            ok = bool(sel) and any(mentions(a, lambda t: t == stop or t == ("ref", stop) or t == q) for a in sel[0].args) and not any(e.kind == "await" for e in tr[:tr.index(sel[0])])
            ctx.expect(ok, k + ":watch", "the %s does not watch for the client being closed while it works" % tag, at(f), "workers watch for closing")
            if p.end != "return": continue
            waits, closes = stop_events(C, p, stop)
            # ---- why it ended
            if waits: why = "stopped"
            else:
                if role == "out":
                    r, seg = since(p, "mpsc::bounded::Receiver::recv")
                    R = out_of(seg, r) if r is not None else None
                    snd = [e for e in seg if e.kind == "call" and e.cid.endswith(TRANSPORT_TX)]
                    S = out_of(seg, snd[0]) if len(snd) == 1 else None
                    if R is not None and poss(ctx, p, R, OPT) == {0}: why = "all clients gone"
                    elif S is not None and poss(ctx, p, S, RES) == {1}: why = "transport failed"
                    else: why = None
                else:
                    r, seg = since(p, TRANSPORT_RX)
                    R = out_of(seg, r) if r is not None else None
                    wk = [e for e in seg if e.kind == "call" and e.cid.endswith("WaitMap::wake")]
                    WO = "maitake_sync::wait_map::WakeOutcome"
                    if R is not None and poss(ctx, p, R, RES) == {1}: why = "transport failed"
                    elif len(wk) == 1 and poss(ctx, p, wk[0].res, WO) == {variant_index(ctx, WO, "Closed")}: why = "requests closed"
                    else: why = None
                ctx.expect(why is not None, k + ":quits", "the %s can stop although neither the transport failed nor the client was closed" % tag, at(f), "workers keep going")
                ctx.expect(bool(closes), k + ":signal", "the %s can end without closing the client" % tag, at(f), "a worker's end closes the client")
            kinds.add(why)
            if role == "in":
                # ---- the subscriptions are purged under one lock, and it stays that way
                ok = False
                for cell, v in p.mem.items():
                    if cell[0] != "ext": continue
                    g = cell[1]
                    lk = [e for e in p.trace if e.kind == "call" and e.cid.endswith("Mutex::lock") and strip(e.args[0]) == arc(subs)]
                    own = [e for e in lk if any(g == arc(a.res) for a in p.trace if a.kind == "await" and a.args[0] == e.res)]
                    if not own: continue
                    if E.proj(v, ("f", 0, C.s["stopped"])) == TRUE and all(is_empty(E, E.proj(v, ("f", 0, C.s[x]))) for x in ("multi", "excl")): ok = True
                ctx.expect(ok, "in:purge", "the incoming worker can end without ending every subscription and refusing new ones", at(f), "subscriptions end")
        want = {"stopped", "all clients gone", "transport failed"} if role == "out" else {"stopped", "transport failed", "requests closed"}
        for w in want: ctx.expect(w in kinds, k + ":never:" + w, "the %s does not end when: %s" % (tag, w), at(f), "workers end")
        # transport failures that do not end the worker
        for p in ps:
            if p.end != "loop": continue
            if role == "out":
                for e in [e for e in p.trace if e.kind == "call" and e.cid.endswith(TRANSPORT_TX)]:
                    S = awaited(p, e)
                    if S is not None and poss(ctx, p, S, RES) == {1}: ctx.viol("out:goes-on", "the outgoing worker goes on after the transport failed", e.at())
            else:
                r, seg = since(p, TRANSPORT_RX)
                R = out_of(seg, r) if r is not None else None
                if R is not None and poss(ctx, p, R, RES) == {1}: ctx.viol("in:goes-on", "the incoming worker goes on after the transport failed", r.at())
        ctx.sample({"fn": f.key, "paths": len(ps), "endings": sorted(str(x) for x in kinds)})
    # the tasks share what the client uses
    for e in C.spawns:
        v = strip(e.args[1])
        ctx.expect(mentions(v, lambda t: t == stop), "spawn:stopper", "a worker does not share the client's stop signal", e.at(), "shared state")
    ctx.floor("spawned workers", len(C.spawns), 2)

def is_empty(E, v): return v == ("cat",) or E.clen(v) == I(0)

def clones(ctx, C, parts):
    """a clone of the client is the same client: it shares or copies these parts"""
    f = ctx.trait_fn("clone::Clone", "clone", lambda t: t.k == "adt" and t.d["def"].endswith("host_client::HostClient"), "HostClient")
    for p in ctx.run(f):
        if p.end != "return" or p.ret[0] != "agg": ctx.viol("clone", "cloning a client is not a plain copy", at(f)); continue
        for k, i in C.i.items():
            if k not in parts: continue
            v = p.ret[4][i]; w = C.me(k)
            e = [x for x in p.trace if x.kind == "call" and x.res == v]
            same = v == w or (e and e[0].cid.endswith("Clone::clone") and seen_ref(e[0].args[0]) == w) or (v[0] == "agg" and all(x == fld(w, 0, j) or any(y.res == x and seen_ref(y.args[0]) == fld(w, 0, j) for y in p.trace if y.kind == "call" and y.cid.endswith("Clone::clone")) for j, x in enumerate(v[4])) and len(v[4]) > 0)
            ctx.expect(same, "clone:" + k, "a cloned client does not share %s with the original" % k, at(f), "clones share state")

def closed_ops(ctx, C, N):
    """public operations end when the client is closed"""
    me = C.me("stop")
    for name, variant in (("close", None), ("is_closed", None), ("wait_closed", None)):
        f = ctx.inherent("host_client::HostClient", name)
        for p in ctx.run(f):
            if p.end != "return": ctx.viol(name + ":end", "%s ends with %s" % (name, p.end), at(f)); continue
            waits, closes = stop_events(C, p, me)
            if name == "close": ctx.expect(len(closes) >= 1, "close", "close() does not close the client", at(f), "close")
            elif name == "is_closed":
                c = calls(p, "WaitQueue::is_closed")
                ctx.expect(len(c) == 1 and strip(c[0].args[0]) == C.stopq(me) and p.ret == c[0].res, "is_closed", "is_closed() does not report the client's stop signal", at(f), "close")
            else:
                ctx.expect(len(waits) == 1 and not closes, "wait_closed", "wait_closed() does not wait for the client's stop signal", at(f), "close")
    # awaiting operations
    SE = find_adt(ctx, "host_client::SubscribeError"); ioc = variant_index(ctx, SE, "IoClosed")
    for name in ("publish", "publish_raw", "send_resp", "send_resp_raw", "subscribe", "subscribe_raw", "subscribe_multi", "subscribe_multi_raw", "subscribe_exclusive", "subscribe_exclusive_raw"):
        f = ctx.inherent("host_client::HostClient", name)
        E = ctx.engine(models=veq_models(ctx.p), max_paths=20000)
        n = 0
        for p in ctx.run(f, E):
            if p.end != "return": continue
            tr = p.trace
            waits, closes = stop_events(C, p, me)
            iserr = p.ret[0] == "agg" and p.ret[3] == 1
            if waits:
                n += 1
                v = p.ret[4][0] if iserr else None
                ok = v is not None and (not v[4] and (v[2].endswith("IoClosed") or v == ("agg", "adt", SE, ioc, ()) or v == ("agg", "adt", C.HE, C.he["Closed"], ())))
                ctx.expect(ok, name + ":closed-result", "%s returns %s when the client is closed" % (name, show(p.ret)), at(f), "closed result")
            # ... and none of them closes it while the connection works
            if closes and not known_closed(C, p):
                enq = [(None, awaited(p, e), e) for e in calls(p, "Wait::enqueue")]
                regbad = any(r is not None and poss(ctx, p, r, RES) == {1} for _, r, _ in enq) and not duplicate(ctx, p, enq)
                sbad = any(awaited(p, e) is not None and poss(ctx, p, awaited(p, e), RES) == {1} for e in calls(p, "mpsc::bounded::Sender::send"))
                ctx.expect(regbad or sbad, name + ":closes", "%s closes the connection although nothing is wrong with it" % name, closes[0].at(), "operations do not close the client")
            # no await may outlive the client
            for e in tr:
                if e.kind != "await": continue
                i = tr.index(e)
                if e in waits: continue
                if e.cid.endswith(("Mutex::lock", "Wait::enqueue", "mpsc::bounded::Sender::send")): continue
                sel = [x for x in tr[:i] if x.kind == "select"]
                ok = bool(sel) and any(mentions(a, lambda t: t == me or t == C.meref("stop") or t == C.stopq(me)) for a in sel[-1].args)
                ctx.expect(ok, name + ":await:" + e.cid, "%s waits for %s without watching for the client being closed" % (name, e.cid), e.at(), "no wait outlives the client")
            # a message that cannot be queued
            for e in calls(p, "mpsc::bounded::Sender::send"):
                S = awaited(p, e)
                if S is not None and poss(ctx, p, S, RES) != {0}:
                    ctx.expect(iserr or poss(ctx, p, S, RES) == {0}, name + ":queue-closed", "%s ignores that the outgoing worker is gone" % name, e.at(), "closed result")
            if name.startswith("subscribe"): registration(ctx, C, E, p, name, f)
        ctx.expect(n > 0, name + ":never-closed", "%s does not notice that the client is closed" % name, at(f), "closed result")
    clones(ctx, C, tuple(C.i))
    recvs(ctx, C, {"closed"})

def guards(C, p):
    """values of the lock on the client's subscriptions taken on this path"""
    out = []
    for e in calls(p, "Mutex::lock", "Mutex::blocking_lock", "Mutex::try_lock"):
        if strip(e.args[0]) == arc(C.me("subs")):
            r = awaited(p, e)
            out.append(arc(r) if r is not None else None)
    return out

def registration(ctx, C, E, p, name, f):
    """subscriptions are only added while the worker that would feed them is alive"""
    gs = guards(C, p)
    st = [e for e in p.trace if e.kind == "store" or (e.kind == "call" and e.cid.endswith("broadcast::Sender::subscribe")) or e.kind == "retain"]
    chg = [e for e in st if any(g is not None and mentions(e.args[0], lambda t: t == ("deref", g)) for g in gs)]
    isok = p.ret[0] == "agg" and p.ret[3] == 0
    for e in chg:
        ok = False
        for g in gs:
            if g is None or not mentions(e.args[0], lambda t: t == ("deref", g)): continue
            flag = ("fld", ("deref", g), 0, C.s["stopped"])
            ok = ok or p.facts.get(flag) == 0
        ctx.expect(ok, name + ":after-stop", "%s can add a subscription after the client was closed" % name, e.at(), "no subscription after closing")
    if isok: ctx.expect(bool(chg), name + ":unregistered", "%s hands out a subscription that is not registered" % name, at(f))
    for g in gs:
        if g is None: continue
        if p.facts.get(("fld", ("deref", g), 0, C.s["stopped"])) == 1:
            v = p.ret[4][0] if p.ret[0] == "agg" and p.ret[3] == 1 else None
            ctx.expect(v is not None and (v[2].endswith("IoClosed") or v[3] == variant_index(ctx, find_adt(ctx, "host_client::SubscribeError"), "IoClosed")), name + ":stopped-result", "%s returns %s after the client was closed" % (name, show(p.ret)), at(f), "closed result")

def own_rx(e):
    return mentions(e.args[0], lambda t: t == ("deref", ("arg", 1))) or bool(e.raw) and mentions(e.raw[0], lambda t: t == ("ext", ("arg", 1)))
def recvs(ctx, C, what):
    RE = "tokio::sync::broadcast::error::RecvError"
    MS = find_adt(ctx, "host_client::MultiSubRxError")
    for ty in ("Subscription", "RawSubscription", "MultiSubscription", "RawMultiSubscription"):
        f = ctx.inherent("host_client::" + ty, "recv")
        E = ctx.engine(merge=True)
        ri = [i for i, fd in enumerate(ctx.p.adt(find_adt(ctx, "host_client::" + ty))["variants"][0]["fields"])]
        seen = set()
        multi = ty.endswith("MultiSubscription")
        for p in ctx.run(f, E):
            no_panic(ctx, ty + "::recv", p, f)
            if p.end in ("unreachable", "panic"): continue
            r, seg = since(p, "Receiver::recv", "Receiver::try_recv")
            others = [e for e in p.trace if e.kind == "call" and "::Receiver::" in e.cid and e.cid.rsplit("::", 1)[1] not in ("recv", "try_recv", "is_closed", "len", "is_empty", "capacity", "max_capacity", "sender_strong_count", "sender_weak_count")]
            for e in others: ctx.viol(ty + ":other:" + e.cid, "%s::recv does something else with its channel: %s" % (ty, e.cid), e.at())
            # every message taken from the channel before that one was undecodable
            # (an earlier iteration is a path of its own)
            for e in p.trace[max([i for i, x in enumerate(p.trace) if x.kind == "widen"], default=-1) + 1:]:
                if e.kind != "call" or not e.cid.endswith(("Receiver::recv", "Receiver::try_recv")) or e is r: continue
                ctx.expect(own_rx(e), ty + ":rx", "%s::recv reads another channel" % ty, e.at())
                tr_ = e.cid.endswith("try_recv")
                V = e.res if tr_ else out_of(p.trace[p.trace.index(e) + 1:], e)
                if V is None: continue
                okx = 0 if multi or tr_ else 1
                if okx not in poss(ctx, p, V, RES if multi or tr_ else OPT): continue
                dx = [d for d in p.trace if d.kind == "call" and d.cid.endswith(("from_bytes", "take_from_bytes")) and base(d.args[0]) == fld(fld(V, okx, 0), 0, C.fb)]
                ctx.expect(not ty.startswith("Raw") and any(poss(ctx, p, d.res, RES) == {1} for d in dx), ty + ":dropped", "%s::recv takes a message from its channel and drops it" % ty, e.at(), "no message dropped")
            if r is None: ctx.viol(ty + ":norecv", "%s::recv does not wait for a message" % ty, at(f)); continue
            tried = r.cid.endswith("try_recv")
            R = r.res if tried else out_of(seg, r)
            if R is None: ctx.viol(ty + ":noawait", "%s::recv does not wait for a message" % ty, r.at()); continue
            first = next(e for e in p.trace if e.kind == "call" and e.cid.endswith(("Receiver::recv", "Receiver::try_recv")))
            ctx.expect(own_rx(first), ty + ":rx", "%s::recv reads another channel" % ty, first.at())
            got = poss(ctx, p, R, RES if multi or tried else OPT)
            okv = 0 if multi or tried else 1
            if tried and got == {1}:
                # only the closed channel may end a receive that did not wait
                TE = "tokio::sync::%s::error::TryRecvError" % ("broadcast" if multi else "mpsc")
                cl = variant_index(ctx, TE, "Closed" if multi else "Disconnected")
                closedv = p.ret == (("agg", "adt", RES, 1, (("agg", "adt", MS, variant_index(ctx, MS, "IoClosed"), ()),)) if multi else ("agg", "adt", OPT, 0, ()))
                ctx.expect(p.end == "loop" or (poss(ctx, p, fld(R, 1, 0), TE) == {cl} and closedv), ty + ":closed", "%s::recv returns %s without waiting for a message" % (ty, show(p.ret) if p.ret else p.end), r.at(), "closed reported")
                continue
            rok = 0 if multi else 1
            dec = [e for e in seg if e.kind == "call" and e.cid.endswith(("from_bytes", "take_from_bytes"))]
            msg = fld(R, okv, 0)
            if p.ret == R: seen |= {"closed", "msg", "lag"}; continue
            if got == {okv}:
                if ty.startswith("Raw"):
                    ctx.expect(p.end == "return" and p.ret[0] == "agg" and p.ret[3] == rok and p.ret[4][0] == msg, ty + ":msg", "%s::recv returns %s for a message" % (ty, show(p.ret) if p.ret else p.end), r.at(), "message delivered"); seen.add("msg")
                    continue
                ok = len(dec) == 1 and base(dec[0].args[0]) == fld(msg, 0, C.fb)
                if not ctx.expect(ok, ty + ":decode", "%s::recv does not decode the message it received" % ty, r.at(), "message decoded"): continue
                dv = poss(ctx, p, dec[0].res, RES)
                if dv == {0}:
                    ctx.expect(p.end == "return" and p.ret[0] == "agg" and p.ret[3] == rok and p.ret[4][0] == fld(dec[0].res, 0, 0), ty + ":msg", "%s::recv does not return the message it decoded" % ty, r.at(), "message delivered"); seen.add("msg")
                elif dv == {1}:
                    ctx.expect(p.end == "loop", ty + ":skip", "%s::recv ends the subscription at a message it cannot decode" % ty, r.at(), "undecodable message skipped"); seen.add("skip")
                else: ctx.viol(ty + ":decode-ignored", "%s::recv ignores whether decoding worked" % ty, r.at())
            elif not multi and got == {0}:
                ctx.expect(p.end == "return" and p.ret == ("agg", "adt", OPT, 0, ()), ty + ":closed", "%s::recv does not return None when the subscription was closed" % ty, r.at(), "closed reported"); seen.add("closed")
            elif multi and got == {1}:
                ev = poss(ctx, p, fld(R, 1, 0), RE)
                if not ctx.expect(len(ev) == 1 and p.end == "return", ty + ":err", "%s::recv does not tell closing and lagging apart" % ty, r.at()): continue
                cl = next(iter(ev)) == variant_index(ctx, RE, "Closed")
                seen.add("closed" if cl else "lag")
                want = ("agg", "adt", MS, variant_index(ctx, MS, "IoClosed"), ()) if cl else ("agg", "adt", MS, variant_index(ctx, MS, "Lagged"), (fld(fld(R, 1, 0), variant_index(ctx, RE, "Lagged"), 0),))
                ctx.expect(p.ret[0] == "agg" and p.ret[3] == 1 and p.ret[4][0] == want, ty + (":closed" if cl else ":lag"), "%s::recv reports %s" % (ty, show(p.ret)), r.at(), "closed reported" if cl else "lag reported")
            else: ctx.viol(ty + ":unread", "%s::recv does not look at what it received" % ty, r.at())
        need = {"closed", "msg"} | ({"lag"} if multi else set()) | (set() if ty.startswith("Raw") else {"skip"})
        ctx.expect(need <= seen, ty + ":cases", "%s::recv does not handle: %s" % (ty, ", ".join(sorted(need - seen))), at(f))

# ------------------------------------------------------------------ C13
def elem_of(v, lists):
    """(list role, element term) if v is (a reference to) a field of an element of one of the lists"""
    v = strip(v)
    for _ in range(4):
        if v[0] == "deref": v = v[1]; v = strip(v)
        elif v[0] == "fld" and v[1][0] == "elem": break
        else: return None
    if v[0] != "fld" or v[1][0] != "elem": return None
    for role, l in lists.items():
        if v[1][1] == l: return role, v[1], v[3]
    return None

def full_search(ctx, p, E, seg, lst, key, ps=None):
    """evidence on this path that no element of the list has the key: a search of the whole list that found nothing"""
    for e in seg:
        if e.kind == "search" and e.x in ("miss", "empty", "hit"):
            it = e.args[0]
            if not mentions(it, lambda t: t == lst): continue
            whole = it[0] == "agg" and len(it[4]) >= 2 and strip(it[4][0]) in (lst, ("&", lst)) and it[4][1] == I(0)
            if not whole: continue
            if e.x == "empty": return True
            if e.x == "miss":
                el = ("elem", lst, strip(e.args[1])[2]) if strip(e.args[1])[0] == "elem" else strip(e.args[1])
                if p.facts.get(veq(key(el))) == 0: return True
    # a loop over the list that ran to its end, every element on the way compared and found different
    L = op("len", lst)
    return any(t[0] == "lt" and t[2] == L and v == 0 and all_before(p, ps or [p], lst, key, t[1]) for t, v in p.facts.items())
def all_before(p, ps, lst, key, x, depth=0):
    """every element of the list before index x is known to differ (by induction over the loops that were cut)"""
    if x == I(0): return True
    if depth > 12: return False
    differs = lambda q, i: q.facts.get(veq(key(("elem", lst, i)))) == 0
    prev = sub(x, I(1))
    if differs(p, prev) and all_before(p, ps, lst, key, prev, depth + 1): return True
    c, d = lin(x)
    lvs = [a for a in d if a[0] == "lv"]
    if len(lvs) != 1 or len(d) != 1 or d[lvs[0]] != 1: return False
    lv = lvs[0]; head = lv[2:4]
    if lv not in p.loops: return False
    start = add(p.loops[lv], I(c))
    its = [q for q in ps if q.end == "loop" and q.note == ("iteration",) + head]
    first = all_before(p, ps, lst, key, start, depth + 1) or its and all(all_before(q, ps, lst, key, start, depth + 1) for q in its)
    if not first: return False
    steps = [q for q in ps if q.end == "loop" and q.note == ("loop",) + head and lv in q.loops]
    for q in steps:
        nx = q.loops.get("step", {}).get(lv)
        if nx is None: return False
        if nx != lv and not (nx == add(lv, I(1)) and differs(q, x)): return False
    return bool(steps)
def veq(pair):
    a, b = sorted(pair, key=repr)
    return ("veq", a, b)

def deliveries(ctx, C, N):
    E, f, ps = worker(ctx, C, "in")
    subs = C.ret[C.i["subs"]]
    W = at(f)
    tmo = ("fld", place(C.ret[C.i["ctx"]]), 0, C.h["timeout"])
    TS = "tokio::sync::mpsc::error::TrySendError"
    full, gone = variant_index(ctx, TS, "Full"), variant_index(ctx, TS, "Closed")
    n = {"multi": 0, "excl": 0, "none": 0, "removed": 0}
    for p, r, seg, R in in_segments(ctx, C, N, E, ps, f):
        no_panic(ctx, "incoming worker", p, f)
        d = decoded(seg)
        lock = [e for e in seg if e.kind == "call" and e.cid.endswith("Mutex::lock") and strip(e.args[0]) == arc(subs)]
        sent = [e for e in seg if e.kind == "call" and any(e.cid.endswith(x) for x in CHSEND)]
        if d is None or poss(ctx, p, d.res, OPT) != {1}:
            ctx.expect(not sent, "in:undecoded", "a frame without a valid header reaches a subscription", W, "undecodable frame ignored")
            if R is not None and poss(ctx, p, R, RES) == {0} and p.end == "return" and not stop_events(C, p, C.ret[C.i["stop"]])[0]:
                ctx.viol("in:undecoded-ends", "a frame without a valid header ends the incoming worker", W)
            if d is None and R is not None and poss(ctx, p, R, RES) == {0}: ctx.viol("in:undecoded-skip", "the incoming worker drops a frame without looking at it", W)
            continue
        hb = fld(d.res, 1, 0); h, b = fld(hb, 0, 0), ("deref", fld(hb, 0, 1))
        hkey = fld(h, 0, N.hkey)
        # the lists as seen under the lock taken for this frame (later critical sections are separate)
        gs = [arc(out_of(seg, e)) for e in lock if out_of(seg, e) is not None]
        # (the purge at the end of the worker is C12's)
        gs = [g for g in gs if not any(e.kind == "store" and e.args[0] == ("fld", ("deref", g), 0, C.s["stopped"]) and e.args[1] == TRUE for e in seg)]
        lists = {}
        for j, g in enumerate(gs):
            for role in ("multi", "excl"): lists[role, j] = ("fld", ("deref", g), 0, C.s[role])
        key = lambda el: (("agg", "adt", N.VK, N.kvar[8], (("fld", el, 0, 0),)), hkey)
        match = {}
        for e in sent:
            t = elem_of(e.args[0], lists)
            if t is None: ctx.viol("in:target", "the incoming worker sends a message to %s, which is no registered subscription" % show(e.args[0]), e.at()); continue
            role, el, fi = t
            ctx.expect(p.facts.get(veq(key(el))) == 1, "in:%s:key" % role[0], "a message is given to a subscription whose key need not match", e.at(), "delivered only to its topic")
            match.setdefault(role, []).append((e, el))
        for role in ("multi", "excl"):
            here = [(rj, v) for rj, v in match.items() if rj[0] == role]
            evs = [x for _, v in here for x in v]
            if not evs:
                # either nobody subscribed, or someone did and was not told
                l0 = [lists[rj] for rj in lists if rj[0] == role]
                hit = [t for t, v in p.facts.items() if t[0] == "veq" and v == 1 and any(mentions(t, lambda x: x == l) for l in l0)]
                ctx.expect(bool(l0) and not hit, "in:%s:lost" % role, "a message for a subscribed topic is not given to its %s subscription" % ("shared" if role == "multi" else "exclusive"), W, "delivered")
                ok = any(full_search(ctx, p, E, seg, l, key, ps) for l in l0)
                ctx.expect(ok, "in:%s:search" % role, "a message can be passed over without looking through all %s subscriptions" % ("shared" if role == "multi" else "exclusive"), W, "every subscription looked at")
                n["none"] += 1
                continue
            n[role] += 1
            els = {el for _, el in evs}
            ctx.expect(len(els) == 1, "in:%s:several" % role, "one message is given to several subscriptions", W)
            def frame(v): return v[0] == "agg" and v[2] == C.RF and v[4][C.fh] == h and strip(v[4][C.fb]) == b
            first = evs[0][0]
            ctx.expect(frame(first.args[1]), "in:%s:frame" % role, "a subscription is given %s for the received message" % show(first.args[1], 5), first.at(), "message unchanged")
            if role == "multi":
                ctx.expect(len(evs) == 1, "in:multi:twice", "a message is given %d times to a shared subscription" % len(evs), first.at(), "delivered once")
                continue
            # exclusive: at most one retry, only after the channel was full and with the configured patience
            fails = first.cid.endswith("try_send")
            if len(evs) > 1:
                ctx.expect(len(evs) == 2 and fails and poss(ctx, p, first.res, RES) == {1} and poss(ctx, p, fld(first.res, 1, 0), TS) == {full}, "in:excl:twice", "a message can be given twice to an exclusive subscription", evs[1][0].at(), "delivered once")
                second = evs[1][0]
                ctx.expect(second.args[1] == fld(fld(first.res, 1, 0), full, 0) or frame(second.args[1]), "in:excl:retry-frame", "the message retried is not the one that did not fit", second.at(), "message unchanged")
                got = out_of(seg, second)
                sl = [e for e in seg if e.kind == "call" and e.cid.endswith("sleep::sleep")]
                if got is None:
                    slept = [e for e in sl if out_of(seg, e) is not None or any(x.kind == "await" and base(x.args[0]) == e.res for x in seg)]
                    slept = [e.args[0] for e in slept] + [e.args[0] for e in seg if e.kind == "timeout"]
                    ctx.expect(bool(slept) and all(e == tmo for e in slept), "in:excl:patience", "a message for a full subscription is dropped before the configured time", second.at(), "waits the configured time")
                else: ctx.expect(poss(ctx, p, got, RES) != set(), "in:excl:retry", "", second.at())
            elif fails:
                fv = poss(ctx, p, first.res, RES)
                if fv == {1}:
                    kinds = poss(ctx, p, fld(first.res, 1, 0), TS)
                    if full in kinds:
                        zero = [e for e in seg if e.kind == "call" and e.cid.endswith("Duration::is_zero") and seen_ref(e.args[0]) == tmo]
                        ok = any(p.facts.get(e.res) == 1 for e in zero)
                        to = [e for e in seg if e.kind in ("timeout", "await") and mentions(e.args, lambda t: t == tmo)]
                        ctx.expect(ok or bool(to), "in:excl:dropped", "a message for a full exclusive subscription is dropped although waiting is configured", first.at(), "waits the configured time")
                else: ctx.expect(fv == {0}, "in:excl:unread", "the incoming worker does not look at whether a message was taken", first.at())
            else:
                got = out_of(seg, first)
                ctx.expect(got is not None or first.cid.endswith(("blocking_send",)), "in:excl:unsent", "a message for an exclusive subscription is not sent", first.at())
        # ---- removal
        rem = [e for e in seg if e.kind == "retain"] + [e for e in seg if e.kind in ("call", "store") and any(e.args and strip(e.args[0]) == l for l in lists.values())]
        for e in rem:
            rj = [k for k, l in lists.items() if strip(e.args[0]) == l]
            if not rj: continue
            role = rj[0]
            dead = False
            for ev, el in match.get(role, []):
                if ev.cid.endswith("broadcast::Sender::send"): dead = dead or poss(ctx, p, ev.res, RES) == {1}
                elif ev.cid.endswith("try_send"): dead = dead or (poss(ctx, p, ev.res, RES) == {1} and poss(ctx, p, fld(ev.res, 1, 0), TS) == {gone})
                else:
                    got = out_of(seg, ev)
                    dead = dead or (got is not None and poss(ctx, p, got, RES) == {1})
            what = "shared" if role[0] == "multi" else "exclusive"
            if e.kind == "retain":
                if e.x == "empty": continue
                el = strip(e.args[1])
                if el[0] == "deref": el = strip(el[1])
                m = p.facts.get(veq(key(el)))
                if e.x == "remove":
                    n["removed"] += 1
                    ctx.expect(m == 1 or el in [x for _, x in match.get(role, [])], "in:%s:remove-other" % role[0], "a %s subscription to another topic is removed" % what, e.at(), "only dead subscriptions removed")
                    ctx.expect(dead, "in:%s:remove-live" % role[0], "a %s subscription is removed although its receiver is not known to be gone" % what, e.at(), "only dead subscriptions removed")
            else:
                # taken out at the index of the matching element
                at_ = ("elem", lists[role], e.args[1]) if e.kind == "call" and len(e.args) > 1 else None
                ok = dead and at_ is not None and e.cid.endswith(("Vec::remove", "Vec::swap_remove")) and (any(x == at_ for _, x in match.get(role, [])) or p.facts.get(veq(key(at_))) == 1)
                if ok: n["removed"] += 1
                ctx.expect(ok, "in:%s:changed" % role[0], "the list of %s subscriptions is changed while a message is handed out (%s)" % (what, e.cid or "store"), e.at(), "only dead subscriptions removed")
    for k, w in (("multi", 8), ("excl", 8), ("none", 4)): ctx.floor("deliveries:" + k, n[k], w)
    ctx.sample({"fn": f.key, "paths": len(ps), "cases": n})

def subscribing(ctx, C, N):
    """what a subscription function registers is what its caller receives from"""
    SE = find_adt(ctx, "host_client::SubscribeError"); already = variant_index(ctx, SE, "AlreadySubscribed")
    for name, kind in (("subscribe_multi", "multi"), ("subscribe_multi_raw", "multi"), ("subscribe_exclusive", "excl"), ("subscribe_exclusive_raw", "excl"), ("subscribe", "legacy"), ("subscribe_raw", "legacy")):
        f = ctx.inherent("host_client::HostClient", name)
        raw = name.endswith("_raw")
        K = ("arg", 2) if raw else ("const", "postcard_rpc::Topic::TOPIC_KEY", "T")
        depth = ("arg", 3) if raw else ("arg", 2)
        role = "multi" if kind == "multi" else "excl"
        E = ctx.engine(models=veq_models(ctx.p), max_paths=20000)
        seen = set()
        ps = ctx.run(f, E)
        for p in ps:
            no_panic(ctx, name, p, f)
            if p.end != "return": continue
            gs = [g for g in guards(C, p) if g is not None]
            isok = p.ret[0] == "agg" and p.ret[3] == 0
            stores = [e for e in p.trace if e.kind == "store" and any(mentions(e.args[0], lambda t: t == ("deref", g)) for g in gs)]
            stores = [e for e in stores if not any(e.args[0] == ("fld", ("deref", g), 0, C.s["stopped"]) for g in gs)]
            rets = [e for e in p.trace if e.kind == "retain"]
            if not isok:
                ctx.expect(not stores and not rets, name + ":refused-changes", "%s changes the subscriptions although it fails" % name, at(f), "refusal changes nothing")
            if not gs:
                ctx.expect(not isok, name + ":unlocked", "%s hands out a subscription without registering it" % name, at(f)); continue
            L = ("fld", ("deref", gs[-1]), 0, C.s[role])
            hits = []
            for t, v in p.facts.items():
                if t[0] == "veq" and v == 1 and K in t[1:]:
                    o = t[1] if t[2] == K else t[2]
                    if o[0] == "fld" and o[1][0] == "elem" and o[1][1] == L: hits.append(o[1])
            key = lambda el: (K, ("fld", el, 0, 0))
            none = full_search(ctx, p, E, p.trace, L, key, ps)
            err = p.ret[4][0] if not isok and p.ret[0] == "agg" else None
            if err is not None and err[0] == "agg" and err[2] == SE and err[3] == already:
                closed = [e for e in p.trace if e.kind == "call" and e.cid.endswith("Sender::is_closed") and hits and strip(e.args[0]) == ("fld", hits[0], 0, 1)]
                ctx.expect(kind == "excl" and bool(closed) and p.facts.get(closed[-1].res) == 0, name + ":refused", "%s refuses a topic that has no live exclusive subscription" % name, at(f), "refused only while another is alive")
                seen.add("refused"); continue
            if not isok: continue
            sub = p.ret[4][0]
            rx = sub[4][0] if sub[0] == "agg" else None
            ch = calls(p, "broadcast::channel", "mpsc::bounded::channel")
            made = [c for c in ch if rx == fld(c.res, 0, 1)]
            subd = [c for c in calls(p, "broadcast::Sender::subscribe") if c.res == rx]
            if kind == "multi" and subd:
                t = strip(subd[0].args[0])
                ctx.expect(bool(hits) and t == ("fld", hits[0], 0, 1), name + ":join", "%s joins the subscription of another topic" % name, subd[0].at(), "joins its topic")
                ctx.expect(not stores, name + ":join-changes", "%s changes the registered subscriptions when it joins one" % name, at(f))
                seen.add("joined"); continue
            if not ctx.expect(len(made) == 1 and made[0].cid.endswith("broadcast::channel" if role == "multi" else "mpsc::bounded::channel"), name + ":rx", "%s hands out a receiver that nothing feeds" % name, at(f), "receiver fed"): continue
            ctx.expect(made[0].args[0] == depth, name + ":depth", "%s makes a channel of depth %s" % (name, show(made[0].args[0])), made[0].at(), "depth")
            tx = fld(made[0].res, 0, 0)
            entry = ("agg", "tuple", None, 0, (K, tx))
            put = [e for e in stores if e.args[0] == L and e.args[1][0] == "cat" and len(e.args[1]) == 3 and e.args[1][1] == L and e.args[1][2] == ("one", entry)]
            rep = [e for e in stores if hits and e.args[0] == ("fld", hits[0], 0, 1) and e.args[1] == tx]
            if len(stores) != 1: ctx.viol(name + ":stores", "%s changes the registered subscriptions in %d places" % (name, len(stores)), at(f)); continue
            if put:
                ctx.expect(none and not hits, name + ":hidden", "%s adds a subscription behind an existing one for the same topic" % name, put[0].at(), "registered once"); seen.add("added")
            elif rep:
                if kind == "excl":
                    closed = [e for e in calls(p, "Sender::is_closed") if strip(e.args[0]) == ("fld", hits[0], 0, 1)]
                    ctx.expect(bool(closed) and p.facts.get(closed[-1].res) == 1, name + ":steals", "%s replaces a live exclusive subscription" % name, rep[0].at(), "live subscription kept")
                ctx.expect(kind != "multi", name + ":steals", "%s replaces a live subscription" % name, rep[0].at())
                seen.add("replaced")
            else: ctx.viol(name + ":entry", "%s registers %s" % (name, show(stores[0].args[1], 5)), stores[0].at())
            ctx.rule("registered under its key")
        need = {"multi": {"joined", "added"}, "excl": {"refused", "added", "replaced"}, "legacy": {"added", "replaced"}}[kind]
        ctx.expect(need <= seen, name + ":cases", "%s does not handle: %s" % (name, ", ".join(sorted(need - seen))), at(f))
        ctx.sample({"fn": f.key, "cases": sorted(seen)})

@check("C11", 'The constructor is interpreted to learn which fields of the client hold the wait map, the subscriptions, the outgoing queue, the stop signal, the sequence counter and the error key. Then every path of send_resp, send_resp_raw, publish and the tasks the constructor spawns is interpreted from MIR. Rules: the sequence number comes from one atomic increment; both waits (response key, error key) are registered under that number before the frame is handed to the outgoing queue, which happens exactly once with the request key, number and encoded body; the result is the body of the wait that fired, decoded, or the matching error; the receiving task offers each frame nobody subscribed to exactly once, unchanged, to the wait map under its own header.',
       ['WaitMap, tokio channels, select! and mutexes behave as documented (an enqueued wait sees every later wake of its key)', 'panics from poisoned locks and failed allocation are outside the property', '2^32 requests are not outstanding at once'])
def c11(ctx):
    C = Client(ctx); N = Names(ctx)
    requests(ctx, "send_resp", False)
    requests(ctx, "send_resp_raw", False)
    out_worker(ctx, C, N)
    in_worker_wakes(ctx, C, N)
    process_fns(ctx, C)
    atomics(ctx)
    clones(ctx, C, ("ctx", "out", "err"))
@check("C12", 'All paths of both worker tasks, of close/is_closed and of every public operation are interpreted. Rules: a worker ends only on a transport error or the stop signal, and every way it ends raises the stop signal, closes the wait map and (receiving worker) empties the subscription lists and marks them stopped under one lock; operations race the stop signal and report closed; registration checks the stopped mark under the same lock.',
       ["the stop signal's WaitQueue wakes every waiter once closed, and a closed WaitMap fails all waits (maitake-sync)", "dropping a channel's sender ends its receivers (tokio)"])
def c12(ctx):
    C = Client(ctx); N = Names(ctx)
    workers_stop(ctx, C, N)
    closed_ops(ctx, C, N)
@check("C14", "All paths of send_resp_raw and publish_raw and of the constructors: the key put into the frame is the caller's key shortened to the width loaded from the shared width cell; on every path on which an answer arrived with a key width different from that cell's value the cell is set to that width before returning; the sequence number is resized to the configured width.",
       ['atomic loads and stores of the width cell; concurrent adoption of different widths is last-writer-wins'])
def c14(ctx):
    C = Client(ctx); N = Names(ctx)
    requests(ctx, "send_resp", True)
    requests(ctx, "send_resp_raw", True)
    publishes(ctx, C, N)
    constructors(ctx, C, N)
    clones(ctx, C, ("ctx", "seq"))
@check("C13", "The delivery loop of the receiving task and the registration functions are interpreted with symbolic subscription lists. Rules: for an arbitrary list element with the frame's key there is exactly one delivery of the unchanged frame; not delivering needs a complete search of that list; an entry is removed only after its channel reported closed; a registration either reuses or replaces the entry of its key or appends after a complete search, and the exclusive variant refuses while the existing entry's channel is open.",
       ['tokio channel semantics; list order is irrelevant because the code keeps at most one entry per key and kind (checked by the registration rules)', 'a full queue is handled by the documented policy (shared: lagging receivers lose old messages; exclusive: one delayed retry)'])
def c13(ctx):
    C = Client(ctx); N = Names(ctx)
    deliveries(ctx, C, N)
    subscribing(ctx, C, N)
    recvs(ctx, C, {"msg"})
    clones(ctx, C, ("subs",))
