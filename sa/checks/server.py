"""C05-C10: the server: dispatch, run loop, sender, key width."""
from checks import check
from checks.header import Names, KW, SW, at, panics
from checks.keys import fold, sig
from checks.util import *
from terms import *
from core import Missing
import numdom

def selfref(i): return ("ref", ("ext", ("arg", 1)), (("f", 0, i),))
def ctor_map(ctx, adt, name, nargs):
    """field index that receives each constructor argument"""
    f = ctx.inherent(adt, name)
    ps = [p for p in ctx.run(f) if p.end == "return"]
    if len(ps) != 1 or ps[0].ret[0] != "agg": raise Missing("%s::%s as a plain constructor" % (adt, name))
    return f, ps[0].ret

# ------------------------------------------------------------------ C08
def run_loop(ctx):
    fnew, sv = ctor_map(ctx, "server::Server", "new", 5)
    SND = find_adt(ctx, "server::Sender")
    idx = {}
    for i, v in enumerate(sv[4]):
        if v[0] == "agg" and v[2] == SND: idx["tx"] = i
        for n, a in (("rx", 2), ("buf", 3), ("dis", 4)):
            if v == ("arg", a): idx[n] = i
    if set(idx) != {"tx", "rx", "buf", "dis"}: raise Missing("Server fields as set by Server::new")
    f = ctx.inherent("server::Server", "run")
    RXK = find_adt(ctx, "server::WireRxErrorKind"); TXK = find_adt(ctx, "server::WireTxErrorKind"); SE = find_adt(ctx, "server::ServerError")
    rcc = variant_index(ctx, RXK, "ConnectionClosed")
    fatal_tx = {variant_index(ctx, TXK, "ConnectionClosed"), variant_index(ctx, TXK, "Timeout")}
    vrx = variant_index(ctx, SE, "RxFatal"); vtx = variant_index(ctx, SE, "TxFatal")
    ps = ctx.run(f, opaque=("VarHeader::take_from_slice", "WireRx::receive", "Dispatch::handle", "as_kind"))
    where = at(f)
    buf = ("call", "deref", "", ("fld", ("deref", ("arg", 1)), 0, idx["buf"]))
    seen = {"rxfatal": 0, "txfatal": 0, "rxcont": 0, "txcont": 0, "undecodable": 0, "dispatched": 0}
    for p in ps:
        panics(ctx, p, "Server::run", where)
        if p.end not in ("return", "loop"):
            if p.end != "unreachable": ctx.viol("run:end:" + p.end, "Server::run can end with %s (%s)" % (p.end, p.note), where)
            continue
        tr = [e for e in p.trace if e.kind in ("call", "await")]
        starts = [i for i, e in enumerate(tr) if e.kind == "call" and e.cid.endswith("WireRx::receive")]
        if not starts:
            ctx.viol("run:noreceive", "Server::run has a path that never receives", where); continue
        for e in tr[:starts[0]]:
            if e.cid.endswith("Dispatch::handle"): ctx.viol("run:handle-first", "a handler runs before anything was received", e.at())
        for n, i in enumerate(starts):
            seg = tr[i:starts[n + 1]] if n + 1 < len(starts) else tr[i:]
            last = n + 1 == len(starts)
            rets = last and p.end == "return"
            rx = seg[0]
            ctx.rule("loop iterations")
            ctx.expect(rx.raw[0] == selfref(idx["rx"]) and rx.raw[1] == buf, "run:receive-args", "receive is not called with the server's own receiver and whole buffer", rx.at())
            R = awaited(p, rx)
            if R is None: ctx.viol("run:receive-await", "the receive future is not awaited exactly once", rx.at()); continue
            vs = poss(ctx, p, R, RES)
            hs = [e for e in seg if e.kind == "call" and e.cid.endswith("Dispatch::handle")]
            if len(vs) != 1: ctx.viol("run:receive-ignored", "the result of receive is not examined on some path", rx.at()); continue
            if vs == {1}:
                e_ = fld(R, 1, 0)
                ks = [e for e in seg if e.kind == "call" and e.cid.endswith("as_kind") and strip(e.args[0]) == e_]
                kinds = set(range(len(ctx.p.adt(RXK)["variants"])))
                for k in ks: kinds &= poss(ctx, p, k.res, RXK)
                ctx.expect(not hs, "run:handle-after-rx-error", "a handler is invoked although receiving failed", hs[0].at() if hs else where)
                if rets:
                    seen["rxfatal"] += 1
                    ctx.expect(kinds == {rcc}, "run:rx-return", "the server stops after a receive error that is not a closed connection", rx.at(), "receive failure")
                    ctx.expect(p.ret == ("agg", "adt", SE, vrx, (e_,)), "run:rx-error-value", "a closed connection is reported as %s" % show(p.ret), rx.at())
                else:
                    seen["rxcont"] += 1
                    ctx.expect(rcc not in kinds, "run:rx-continue", "the server keeps running after the connection was closed for receiving", rx.at(), "receive failure")
                continue
            if rets and not hs:
                ctx.viol("run:return-without-dispatch", "the server stops after a successful receive without dispatching", rx.at()); continue
            tk = [e for e in seg if e.kind == "call" and e.cid.endswith("VarHeader::take_from_slice")]
            if len(tk) != 1 or strip(tk[0].args[0]) not in (fld(R, 0, 0), ("deref", fld(R, 0, 0))):
                ctx.viol("run:parse", "the received frame is not parsed exactly once as a whole", rx.at()); continue
            T = tk[0].res
            tv = poss(ctx, p, T, OPT)
            if tv == {0}:
                seen["undecodable"] += 1
                ctx.expect(not hs and not rets, "run:undecodable", "an undecodable frame is dispatched or stops the server", tk[0].at(), "undecodable frame")
                continue
            if tv != {1} or len(hs) != 1:
                ctx.viol("run:dispatch-count", "a received frame is dispatched %d times" % len(hs), tk[0].at()); continue
            pr = fld(T, 1, 0)
            h = hs[0]
            seen["dispatched"] += 1
            ctx.expect(h.raw[0] == selfref(idx["dis"]) and h.raw[1] == selfref(idx["tx"]), "run:handle-self", "the frame is not dispatched through the server's own dispatcher and sender", h.at())
            ctx.expect(strip(h.args[2]) == fld(pr, 0, 0) and strip(h.args[3]) in (fld(pr, 0, 1), ("deref", fld(pr, 0, 1))), "run:handle-args", "dispatch gets header %s and body %s" % (show(h.args[2]), show(h.args[3])), h.at(), "dispatch arguments")
            D = awaited(p, h)
            if D is None: ctx.viol("run:handle-await", "the dispatch future is not awaited exactly once", h.at()); continue
            dv = poss(ctx, p, D, RES)
            if dv == {0}:
                ctx.expect(not rets, "run:return-ok", "the server stops after a successful dispatch", h.at())
                continue
            e_ = fld(D, 1, 0)
            kinds = set(range(len(ctx.p.adt(TXK)["variants"])))
            for k in seg:
                if k.kind == "call" and k.cid.endswith("as_kind") and strip(k.args[0]) == e_: kinds &= poss(ctx, p, k.res, TXK)
            if rets:
                seen["txfatal"] += 1
                ctx.expect(dv == {1} and kinds <= fatal_tx, "run:tx-return", "the server stops after a send error that is neither a closed connection nor a timeout", h.at(), "send failure")
                ctx.expect(p.ret == ("agg", "adt", SE, vtx, (e_,)), "run:tx-error-value", "a fatal send error is reported as %s" % show(p.ret), h.at())
            else:
                seen["txcont"] += 1
                ctx.expect(not (kinds & fatal_tx), "run:tx-continue", "the server keeps running after a fatal send error (closed or timed out)", h.at(), "send failure")
    for k, n in seen.items():
        ctx.expect(n > 0, "run:never:" + k, "no path of Server::run covers the case '%s'" % k, where)
    ctx.floor("loop iterations", ctx.cov["rules"].get("loop iterations", 0), 12)
    ctx.sample({"fn": f.key, "segments": seen})
    # the error kinds themselves pass through unchanged
    for tr in ("server::AsWireRxErrorKind", "server::AsWireTxErrorKind"):
        for g in ctx.p.impl_fn(tr, "as_kind", lambda t: t.k == "adt" and t.d["def"].endswith("ErrorKind")):
            for p in ctx.run(g):
                ctx.expect(p.end == "return" and p.ret == ("deref", ("arg", 1)), "as_kind:" + tr, "as_kind changes the kind it is given", at(g), "as_kind identity")

@check("C08", "Typestate-style abstract interpretation of the MIR of Server::run (coroutine body, generic in transport and dispatcher): the loop is unrolled once from the entry state and once from a widened state, every path is cut into iterations at the receive call and each iteration must be one of: receive error (return RxFatal with that error iff its kind is ConnectionClosed), undecodable frame (go on), dispatched frame (exactly one awaited handle call with that header/body; return TxFatal with its error iff the kind is ConnectionClosed or Timeout). No path may panic or leave the loop otherwise.",
       ["the await points' pending edges re-poll the same future (Rust await semantics)", "transport, dispatcher and error classification are arbitrary (uninterpreted) implementations of the traits"])
def c08(ctx): run_loop(ctx)

# ------------------------------------------------------------------ C09
def sender_fields(ctx):
    f, sv = ctor_map(ctx, "server::Sender", "new", 2)
    tx = [i for i, v in enumerate(sv[4]) if v == ("arg", 1)]; kk = [i for i, v in enumerate(sv[4]) if v == ("arg", 2)]
    if len(tx) != 1 or len(kk) != 1: raise Missing("Sender fields as set by Sender::new")
    return tx[0], kk[0]
def err_bytes(ctx, N):
    f = ctx.p.fns.get("witness::keys::k_error")
    if f is None: raise Missing("witness::keys::k_error")
    E = ctx.engine()
    v = ctx.run(f, E)[0].ret
    return {w: bytes_of(E, v[4][i], w) for i, w in enumerate((1, 2, 4, 8))}

def hdr_parts(ctx, N, E, h):
    """(width, key bytes, seq term) of a header value"""
    k = E.proj(h, ("f", 0, N.hkey)); s = E.proj(h, ("f", 0, N.hseq))
    if k[0] != "agg": return None, None, s
    for w, i in N.kvar.items():
        if k[3] == i: return w, bytes_of(E, k[4][0], w), s
    return None, None, s

def sender(ctx):
    N = Names(ctx)
    itx, ikk = sender_fields(ctx)
    eb = err_bytes(ctx, N)
    cases = [("reply", ("const", "postcard_rpc::Endpoint::RESP_KEY", "E"), ("arg", 2), "val3"),
             ("reply_keyed", ("arg", 3), ("arg", 2), "val4"),
             ("publish", ("const", "postcard_rpc::Topic::TOPIC_KEY", "T"), ("arg", 2), "val3"),
             ("error", None, ("arg", 2), "own3")]
    for name, key, seq, pay in cases:
        f = ctx.inherent("server::Sender", name)
        for w in KW:
            E = ctx.engine(opaque=("WireTx::send", "WireTx::send_raw", "WireTx::send_log_str", "WireTx::send_log_fmt"))
            def prep(st): st.mem[("ext", ("arg", 1))] = ("upd", ("deref", ("arg", 1)), ((("f", 0, ikk), N.kind(w)),))
            full = tuple(("elem", ("kb", key), I(i)) for i in range(8)) if key else eb[8]
            want = fold(full, w)
            tag = "%s:%d" % (name, w)
            ps = ctx.run(f, E, prep=prep)
            for p in ps:
                panics(ctx, p, "Sender::" + name, at(f))
                if p.end != "return": 
                    if p.end not in ("unreachable", "panic"): ctx.viol(tag + ":end", "Sender::%s ends with %s" % (name, p.end), at(f))
                    continue
                ss = calls(p, "WireTx::send", "WireTx::send_raw", "WireTx::send_log_str", "WireTx::send_log_fmt")
                if not ctx.expect(len(ss) == 1 and ss[0].cid.endswith("::send"), tag + ":count", "Sender::%s performs %d transport sends" % (name, len(ss)), at(f), "one send"): continue
                s = ss[0]
                out = awaited(p, s)
                ctx.expect(out is not None and same_result(ctx, p, p.ret, out), tag + ":result", "Sender::%s does not return the result of its (single, awaited) send but %s" % (name, show(p.ret)), s.at(), "result returned")
                ctx.expect(s.raw[0] == selfref(itx), tag + ":tx", "Sender::%s sends through %s" % (name, show(s.args[0])), s.at())
                gw, gb, gs = hdr_parts(ctx, N, E, s.args[1])
                ctx.expect(gw == w and gb == want, tag + ":key", "with %d-byte keys Sender::%s sends under %s" % (w, name, show(s.args[1], 9)), s.at(), "key")
                ctx.expect(gs == seq, tag + ":seq", "Sender::%s sends sequence number %s" % (name, show(gs)), s.at(), "sequence number")
                a = s.args[2]
                if pay.startswith("val"): okp = a == ("arg", int(pay[3:])) or a == ("&", ("deref", ("arg", int(pay[3:]))))
                else: okp = a == ("&", ("arg", int(pay[3:])))
                ctx.expect(okp, tag + ":payload", "Sender::%s sends payload %s" % (name, show(a)), s.at(), "payload")
            ctx.expect(any(p.end == "return" for p in ps), tag + ":never", "Sender::%s never returns" % name, at(f))
    for name, m in (("log_str", "send_log_str"), ("log_fmt", "send_log_fmt")):
        f = ctx.inherent("server::Sender", name)
        for p in ctx.run(f, opaque=("WireTx::send_log_str", "WireTx::send_log_fmt", "WireTx::send", "WireTx::send_raw")):
            if p.end != "return": continue
            panics(ctx, p, "Sender::" + name, at(f))
            ss = calls(p, "WireTx::send", "WireTx::send_raw", "WireTx::send_log_str", "WireTx::send_log_fmt")
            okc = len(ss) == 1 and ss[0].cid.endswith(m) and ss[0].raw[0] == selfref(itx) and ss[0].args[1] == ("fld", ("deref", ("arg", 1)), 0, ikk) and strip(ss[0].args[2]) in (("arg", 2), ("deref", ("arg", 2)))
            ctx.expect(okc, name + ":forward", "Sender::%s does not forward its key width and message to one %s" % (name, m), at(f), "log forward")
            if len(ss) == 1:
                out = awaited(p, ss[0])
                ctx.expect(out is not None and same_result(ctx, p, p.ret, out), name + ":result", "Sender::%s does not return its send's result" % name, at(f), "result returned")
    # the width a server is created with is the width its sender uses
    f, sv = ctor_map(ctx, "server::Server", "new", 5)
    snd = [v for v in sv[4] if v[0] == "agg" and v[2].endswith("server::Sender")]
    ctx.expect(len(snd) == 1 and snd[0][4][itx] == ("arg", 1) and snd[0][4][ikk] == ("arg", 5), "Server::new:sender", "Server::new does not give its sender the transmitter and key width it got", at(f), "constructor")
    f = ctx.inherent("server::Server", "sender")
    isx = [i for i, v in enumerate(sv[4]) if v[0] == "agg" and v[2].endswith("server::Sender")][0]
    src = ("fld", ("deref", ("arg", 1)), 0, isx)
    for p in ctx.run(f):
        r = p.ret
        okr = r == src or (r is not None and r[0] == "agg" and len(r[4]) == 2 and r[4][ikk] == ("fld", src, 0, ikk) and mentions(r[4][itx], lambda t: t == ("fld", src, 0, itx)))
        ctx.expect(okr, "Server::sender", "Server::sender hands out %s" % (show(r) if r else p.end), at(f), "constructor")

@check("C09", "Abstract interpretation of the MIR of Sender::reply, reply_keyed, publish, error for each of the four configured key widths (everything else symbolic, transport uninterpreted): on every path exactly one transport send, awaited once, whose header key equals the fold of the endpoint's RESP_KEY / given key / TOPIC_KEY / ERROR_KEY byte by byte, whose sequence number and payload are the caller's, and whose result is what is returned; log_str/log_fmt forward to their transport call with the configured width.",
       ["the transport implements WireTx; its internals are covered by C15-C17, C21"])
def c09(ctx):
    sender(ctx)
    ctx.floor("key", ctx.cov["rules"].get("key", 0), 16)

# ------------------------------------------------------------------ C05-C07
HANDLERS = ("h_blk", "h_asy", "h_spn", "h_tblk", "h_tasy", "h_tspn")
KNOWN = {  # key fn -> (kind, marker type, request type, handler, flavour)
    "k_ping": ("ping", "postcard_rpc::standard_icd::PingEndpoint", "u32", None, None),
    "k_schemas": ("schemas", "postcard_rpc::standard_icd::GetAllSchemasEndpoint", None, None, None),
    "k_blk": ("ep", "witness::BlkEp", "witness::BlkReq", "witness::h_blk", "blocking"),
    "k_asy": ("ep", "witness::AsyEp", "witness::AsyReq", "witness::h_asy", "async"),
    "k_spn": ("ep", "witness::SpnEp", "witness::SpnReq", "witness::h_spn", "spawn"),
    "k_tblk": ("tp", "witness::TpBlk", "witness::TpBlkMsg", "witness::h_tblk", "blocking"),
    "k_tasy": ("tp", "witness::TpAsy", "witness::TpAsyMsg", "witness::h_tasy", "async"),
    "k_tspn": ("tp", "witness::TpSpn", "witness::TpSpnMsg", "witness::h_tspn", "spawn"),
}
def key_table(ctx):
    E = ctx.engine(); t = {}
    for k in KNOWN:
        f = ctx.p.fns.get("witness::keys::" + k)
        if f is None: raise Missing("witness::keys::" + k)
        v = ctx.run(f, E)[0].ret
        t[k] = {}
        for i, w in enumerate((1, 2, 4, 8)):
            bs = bytes_of(E, v[4][i], w)
            if not all(b[0] == "int" for b in bs): raise Missing("constant value of " + k)
            t[k][w] = tuple(b[1] for b in bs)
    return t
def cev(t, env):
    """value of a term when the key bytes are known, None if it depends on more"""
    if t in env: return env[t]
    k = t[0]
    if k == "int": return t[1]
    if k == "xor":
        r = t[1]
        for x in t[2]:
            v = cev(x, env)
            if v is None: return None
            r ^= v
        return r
    if k == "not":
        v = cev(t[1], env); return None if v is None else 1 - v
    if k == "eq":
        a, b = cev(t[1], env), cev(t[2], env)
        if a is None or b is None: return None
        return int(a == b)
    if k == "lt":
        a, b = cev(t[1], env), cev(t[2], env)
        if a is None or b is None: return None
        return int(a < b)
    if k == "agg":
        r = [cev(x, env) for x in t[4]]
        return None if any(x is None for x in r) else (tuple(r) if len(r) != 1 or t[1] == "array" else r[0])
    if k == "constb": return tuple(t[3])
    if k == "bytes": return tuple(t[1])
    if k == "op" and t[1] == "And":
        a, b = cev(t[2], env), cev(t[3], env)
        if a == 0 or b == 0: return 0
        return 1 if a == 1 and b == 1 else None
    return None
def consistent(p, env):
    for t, v in p.facts.items():
        if t[0] == "discr": continue
        x = cev(t, env)
        if x is not None and x != v: return False
    for t, vs in p.neg.items():
        x = cev(t, env)
        if x is not None and x in vs: return False
    return True
def pinned(p, terms, B):
    """every key byte is forced to B by equality facts of the path"""
    env = {}
    for i, t in enumerate(terms):
        if p.facts.get(t) == B[i]: continue
        okk = False
        for f, v in p.facts.items():
            if f[0] == "eq" and v == 1 and any(mentions(s, lambda x: x == t) for s in (f[1], f[2])): okk = True
        if not okk: return False
    return True

def dispatch_bodies(ctx):
    out = {}
    for n in KW:
        fs = [f for f in ctx.p.impl_fn("server::Dispatch", "handle", lambda t: t.k == "adt" and t.d["def"].startswith("witness::")) ]
        for f in fs:
            d = ctx.p.defs[f.key]; s = ctx.p.def_crate[f.key].types[d["self_ty"]].s
            if s.endswith("<%d>" % n) and s.startswith("witness::impls::WApp"): out[n] = f
    if set(out) != set(KW): raise Missing("dispatcher bodies for the key widths 1, 2, 4, 8 (%s)" % sorted(out))
    return out
def app_fields(ctx):
    fs = [f for f in ctx.p.inherent("impls::WApp", "new")]
    if len(fs) != 1: raise Missing("WApp::new")
    ps = [p for p in ctx.run(fs[0]) if p.end == "return"]
    v = ps[0].ret
    ic = [i for i, x in enumerate(v[4]) if x == ("arg", 1)]; is_ = [i for i, x in enumerate(v[4]) if x == ("arg", 2)]
    if len(ic) != 1 or len(is_) != 1: raise Missing("dispatcher fields")
    return ic[0], is_[0], [i for i in range(len(v[4])) if i not in (ic[0], is_[0])]

def dispatch(ctx, want):
    """want: set of property ids to report for"""
    N = Names(ctx)
    keys = key_table(ctx)
    itx, ikk = sender_fields(ctx)
    ic, isp, imap = app_fields(ctx)
    eb = err_bytes(ctx, N)
    WE = find_adt(ctx, "standard_icd::WireError")
    werr = {n: ("agg", "adt", WE, variant_index(ctx, WE, n), ()) for n in ("DeserFailed", "SerFailed", "UnknownKey", "FailedToSpawn", "KeyTooSmall")}
    bodies = dispatch_bodies(ctx)
    OPQ = ("WireTx::send", "WireTx::send_raw", "WireTx::send_log_str", "WireTx::send_log_fmt", "w_spawn", "from_bytes", "take_from_bytes", "spawn_ctxt", "Sender::send_all_schemas") + tuple("witness::" + h for h in HANDLERS)
    V = lambda pids, key, msg, where: ctx.viol(key, msg, where) if ctx.pid in pids.split() else None
    X = lambda pids, cond, key, msg, where, rule: ctx.expect(cond, key, msg, where, rule) if ctx.pid in pids.split() else cond
    wkinds = KW
    covered = {}
    for n, f in bodies.items():
        where = at(f)
        for w in KW:
            for sw in SW:
              for kk in wkinds:
                key, kb = N.mkkey(w); sq, sv = N.mkseq(sw)
                parts = [None, None]; parts[N.hkey] = key; parts[N.hseq] = sq
                hdr = ("agg", "adt", N.VH, 0, tuple(parts))
                E = ctx.engine(opaque=OPQ)
                def prep(st):
                    st.mem[("heap", "hdr")] = hdr
                    st.mem[("ext", ("arg", 2))] = ("upd", ("deref", ("arg", 2)), ((("f", 0, ikk), N.kind(kk)),))
                ps = ctx.run(f, E, args=[("arg", 1), ("arg", 2), ("ref", ("heap", "hdr"), ()), ("arg", 4)], prep=prep)
                terms = fold(kb, n) if w >= n else None
                # a full key may be looked at through its byte array
                if w == 8 and n == 8: terms = tuple(("elem", ("fld", key[4][0], 0, 0), I(i)) for i in range(8))
                kbt = kb if w == 8 and n == 8 else terms
                for p in ps:
                    panics(ctx, p, "handle<%d>" % n, where)
                    if p.end != "return":
                        if p.end not in ("unreachable", "panic"): ctx.viol("handle:%d:end" % n, "the dispatcher ends with %s (%s)" % (p.end, p.note), where)
                        continue
                    # which message is this path about
                    if w < n: sel = "toosmall"
                    else:
                        cand = [k for k in keys if consistent(p, {**dict(zip(terms, keys[k][n])), **dict(zip(kbt, keys[k][n]))})]
                        pin = [k for k in cand if pinned(p, terms, keys[k][n]) or pinned(p, kbt, keys[k][n])]
                        sel = pin[0] if len(pin) == 1 and len(cand) == 1 else ("unknown" if not cand else None)
                        if sel is None:
                            ctx.viol("handle:%d:%d:ambiguous" % (n, w), "one path of the %d-byte dispatcher serves several keys (%s%s) without telling them apart" % (n, ", ".join(cand), "" if pin else ", other keys"), where)
                            continue
                    covered[(n, w, sel)] = covered.get((n, w, sel), 0) + 1
                    one_path(ctx, N, E, p, n, w, sel, hdr, sq, kk, eb, werr, where, X, V, itx, ikk, ic, isp, imap)
        for w in KW:
            exp = ["toosmall"] if w < n else list(keys) + ["unknown"]
            for s in exp:
                ctx.expect((n, w, s) in covered, "handle:%d:%d:%s:missing" % (n, w, s), "the %d-byte dispatcher has no path for %s with %d-byte keys" % (n, s, w), where, "key classes")
    ctx.sample({"paths per (dispatcher width, key width, message)": {"%d/%d/%s" % k: v for k, v in list(covered.items())[:24]}})

def one_path(ctx, N, E, p, n, w, sel, hdr, sq, kk, eb, werr, where, X, V, itx, ikk, ic, isp, imap):
    tag = "handle:%d:%d:%s" % (n, w, sel)
    what = "%d-byte dispatcher, %s" % (n, sel)
    sends = calls(p, "WireTx::send", "WireTx::send_raw", "WireTx::send_log_str", "WireTx::send_log_fmt")
    hs = [e for e in p.trace if e.kind == "call" and e.cid.split("::")[-1] in HANDLERS]
    sp = calls(p, "w_spawn"); des = calls(p, "from_bytes", "take_from_bytes"); sch = calls(p, "Sender::send_all_schemas")
    res = []
    for s in sends:
        o = awaited(p, s)
        if o is None: ctx.viol(tag + ":unawaited", "%s: a send is started but not awaited exactly once" % what, s.at())
        res.append(o)
        if not s.cid.endswith("::send"): V("C05", tag + ":rawsend", "%s: sends something that is not a response or error" % what, s.at())
        else:
            gw, gb, gs = hdr_parts(ctx, N, E, s.args[1])
            X("C05", gs == sq, tag + ":seq", "%s: answers with sequence number %s" % (what, show(gs)), s.at(), "answer carries the request's sequence number")
            X("C05", s.raw[0] == ("ref", ("ext", ("arg", 2)), (("f", 0, itx),)), tag + ":tx", "%s: answers through another transmitter" % what, s.at(), "answer through the given sender")
    def is_err(i, name):
        s = sends[i]
        if not s.cid.endswith("::send"): return False
        gw, gb, gs = hdr_parts(ctx, N, E, s.args[1])
        return gw == kk and gb == eb[kk] and s.args[2] == ("&", werr[name])
    def is_resp(i, marker, payload):
        s = sends[i]
        if not s.cid.endswith("::send"): return False
        gw, gb, gs = hdr_parts(ctx, N, E, s.args[1])
        full = tuple(("elem", ("kb", ("const", "postcard_rpc::Endpoint::RESP_KEY", marker)), I(j)) for j in range(8))
        return gw == kk and gb == fold(full, kk) and s.args[2] == ("&", payload)
    def only_error(name, pids="C05 C06"):
        X("C06 C07", not hs and not sp, tag + ":handler-on-error:" + name, "%s: a handler runs although the request is answered with %s" % (what, name), where, "no handler on a bad request")
        X("C05", len(sends) == 1, tag + ":count:" + name, "%s: %d messages are sent where one %s error is due" % (what, len(sends), name), where, "exactly one answer")
        if not sends: V("C06", tag + ":noerror:" + name, "%s: the %s error is not sent" % (what, name), where)
        else:
            X("C06", is_err(len(sends) - 1, name), tag + ":error:" + name, "%s: answers %s with payload %s where %s is due" % (what, show(sends[-1].args[1], 9), show(sends[-1].args[2]), name), sends[-1].at(), "matching error")
            if res[-1] is not None: X("C05", same_result(ctx, p, p.ret, res[-1]), tag + ":result:" + name, "%s: the result of sending the error is not returned" % what, sends[-1].at(), "result returned")
    if sel == "toosmall":
        only_error("KeyTooSmall"); return
    if sel == "unknown":
        only_error("UnknownKey"); return
    kind, marker, reqty, handler, flavour = KNOWN[sel]
    if kind == "schemas":
        X("C07", not hs and not sp, tag + ":handler", "%s: a user handler runs" % what, where, "own handler only")
        X("C05", not sends and len(sch) == 1, tag + ":schemas", "%s: is not answered by one send_all_schemas" % what, where, "exactly one answer")
        if len(sch) == 1:
            s = sch[0]; o = awaited(p, s)
            X("C05", o is not None and same_result(ctx, p, p.ret, o), tag + ":schemas-await", "%s: send_all_schemas is not awaited and returned" % what, s.at(), "result returned")
            X("C05", s.raw[0] in (("arg", 2), ("ref", ("ext", ("arg", 2)), ())) and s.args[1] == ("&", hdr), tag + ":schemas-args", "%s: send_all_schemas gets %s" % (what, show(s.args[1], 9)), s.at(), "answer carries the request's sequence number")
            m = ("fld", ("deref", ("arg", 1)), 0, imap[0]) if imap else None
            X("C07", s.args[2] in (m, ("&", ("deref", m))), tag + ":schemas-map", "%s: reports another device map: %s" % (what, show(s.args[2])), s.at(), "own device map")
        return
    if sch: V("C05 C07", tag + ":schemas", "%s: sends the schema report" % what, where)
    # one decode of the whole body as the endpoint's own type
    if not X("C05 C06 C07", len(des) == 1 and des[0].cid.endswith("::from_bytes"), tag + ":decode", "%s: the body is decoded %d times" % (what, len(des)), where, "one decode"): return
    d = des[0]
    X("C07", d.args[0] in (("arg", 4), ("&", ("deref", ("arg", 4)))), tag + ":decode-body", "%s: decodes %s instead of the whole body" % (what, show(d.args[0])), d.at(), "whole body decoded")
    X("C07", d.gargs[-1] == reqty or (d.gargs[-1].endswith("::Request") or d.gargs[-1].endswith("::Message")) and marker in d.gargs[-1], tag + ":decode-type", "%s: decodes the body as %s" % (what, d.gargs[-1]), d.at(), "decoded as its own type")
    dv = poss(ctx, p, d.res, RES)
    if dv == {1}:
        if kind == "tp":
            X("C07", not hs and not sp and not sends, tag + ":bad-topic", "%s: an undecodable topic message runs a handler or causes a send" % what, where, "topics never answered")
            X("C07", p.ret == ok(UNIT), tag + ":bad-topic-result", "%s: an undecodable topic message makes the dispatcher return %s" % (what, show(p.ret)), where, "topics never fail")
        else: only_error("DeserFailed")
        return
    if dv != {0}:
        ctx.viol(tag + ":decode-ignored", "%s: goes on without having looked at the decode result" % what, d.at()); return
    req = fld(d.res, 0, 0)
    if kind == "ping":
        X("C07", not hs and not sp, tag + ":handler", "%s: a user handler runs" % what, where, "own handler only")
        okp = len(sends) == 1 or (len(sends) == 2 and res[0] is not None and poss(ctx, p, res[0], RES) == {1} and is_err(1, "SerFailed"))
        X("C05", okp, tag + ":count", "%s: %d messages are sent" % (what, len(sends)), where, "exactly one answer")
        if sends:
            X("C05", is_resp(0, marker, req), tag + ":resp", "%s: answers %s with payload %s" % (what, show(sends[0].args[1], 9), show(sends[0].args[2])), sends[0].at(), "answer under the endpoint's response key")
            if res[-1] is not None: X("C05", same_result(ctx, p, p.ret, res[-1]), tag + ":result", "%s: the send's result is not returned" % what, sends[-1].at(), "result returned")
        return
    # ---- the registered handler, once, with header, body, context
    if not X("C07 C05", len(hs) == 1 and hs[0].cid == handler, tag + ":handler", "%s: runs %s, registered is %s" % (what, [h.cid for h in hs], handler), where, "own handler only"): return
    h = hs[0]
    X("C07", h.args[1] == hdr, tag + ":handler-hdr", "%s: the handler gets header %s" % (what, show(h.args[1], 9)), h.at(), "handler gets the request header")
    X("C07", h.args[2] == req, tag + ":handler-req", "%s: the handler gets %s instead of the decoded body" % (what, show(h.args[2])), h.at(), "handler gets the decoded body")
    ctxref = ("ref", ("ext", ("arg", 1)), (("f", 0, ic),))
    if flavour == "spawn":
        sc = calls(p, "spawn_ctxt")
        X("C07", len(sc) == 1 and sc[0].raw[0] == ctxref and h.args[0] == sc[0].res, tag + ":handler-ctx", "%s: the spawned handler does not get the dispatcher's spawn context" % what, h.at(), "handler gets the context")
        snd = h.args[3]
        X("C05", snd == ("upd", ("deref", ("arg", 2)), ((("f", 0, ikk), N.kind(kk)),)) or (snd[0] == "agg" and snd[4][ikk] == N.kind(kk)), tag + ":handler-out", "%s: the spawned handler gets another sender" % what, h.at(), "spawned handler gets the sender")
        if not X("C05 C07", len(sp) == 1 and sp[0].args[1] == h.res and not awaits(p, h.res), tag + ":spawn", "%s: the handler's future is not handed to the spawner exactly once" % what, h.at(), "spawned once"): return
        X("C07", sp[0].raw[0] == ("ref", ("ext", ("arg", 1)), (("f", 0, isp),)), tag + ":spawner", "%s: spawned on another spawner" % what, sp[0].at(), "own spawner")
        sv_ = poss(ctx, p, sp[0].res, RES)
        if kind == "tp":
            X("C07", not sends, tag + ":topic-send", "%s: a topic message causes a send" % what, where, "topics never answered")
            X("C07", p.ret == ok(UNIT), tag + ":topic-result", "%s: returns %s" % (what, show(p.ret)), where, "topics never fail")
            return
        if sv_ == {1}:
            X("C05", len(sends) == 1, tag + ":count:FailedToSpawn", "%s: %d messages are sent after a failed spawn" % (what, len(sends)), where, "exactly one answer")
            X("C06", bool(sends) and is_err(len(sends) - 1, "FailedToSpawn"), tag + ":error:FailedToSpawn", "%s: a failed spawn is answered with %s" % (what, show(sends[-1].args[2]) if sends else "nothing"), where, "matching error")
            if sends and res[-1] is not None: X("C05", same_result(ctx, p, p.ret, res[-1]), tag + ":result:FailedToSpawn", "%s: the send's result is not returned" % what, where, "result returned")
        elif sv_ == {0}:
            X("C05", not sends, tag + ":count:spawned", "%s: the dispatcher also answers a request whose handler was spawned" % what, where, "exactly one answer")
            X("C05", p.ret == ok(UNIT), tag + ":result:spawned", "%s: returns %s after a successful spawn" % (what, show(p.ret)), where, "result returned")
        else:
            X("C05", False, tag + ":spawn-ignored", "%s: the spawn result is not examined" % what, sp[0].at(), "exactly one answer")
            X("C06", False, tag + ":spawn-ignored", "%s: the spawn result is not examined" % what, sp[0].at(), "matching error")
        return
    X("C07", h.raw[0] == ctxref, tag + ":handler-ctx", "%s: the handler gets context %s" % (what, show(h.args[0])), h.at(), "handler gets the context")
    X("C07", not sp, tag + ":spawn", "%s: something is spawned" % what, where, "own handler only")
    out = h.res
    if flavour == "async":
        out = awaited(p, h)
        if not X("C05 C07", out is not None, tag + ":handler-await", "%s: the handler's future is not awaited exactly once" % what, h.at(), "handler runs once"): return
    if kind == "tp":
        X("C07", h.args[3] in (("arg", 2), ("&", ("deref", ("arg", 2)))) or h.raw[3] in (("arg", 2), ("ref", ("ext", ("arg", 2)), ())), tag + ":handler-out", "%s: the topic handler gets another sender" % what, h.at(), "handler gets the sender")
        X("C07", not sends, tag + ":topic-send", "%s: a topic message causes a send" % what, where, "topics never answered")
        X("C07", p.ret == ok(UNIT), tag + ":topic-result", "%s: returns %s" % (what, show(p.ret)), where, "topics never fail")
        return
    if not X("C05", len(sends) >= 1 and is_resp(0, marker, out), tag + ":resp", "%s: the handler's reply is not what is sent first (%s)" % (what, [show(s.args[1], 9) + " / " + show(s.args[2]) for s in sends]), where, "answer under the endpoint's response key"): return
    if not sends or res[0] is None: return
    rv = poss(ctx, p, res[0], RES)
    if rv == {0}:
        X("C05", len(sends) == 1, tag + ":count", "%s: %d messages are sent for one request" % (what, len(sends)), where, "exactly one answer")
        X("C05", p.ret == ok(UNIT) or same_result(ctx, p, p.ret, res[0]), tag + ":result", "%s: returns %s after a successful reply" % (what, show(p.ret)), where, "result returned")
    elif rv == {1}:
        X("C05", len(sends) == 2, tag + ":count:SerFailed", "%s: %d messages are attempted when the reply could not be sent" % (what, len(sends)), where, "exactly one answer")
        X("C06", len(sends) == 2 and is_err(1, "SerFailed"), tag + ":error:SerFailed", "%s: an unsendable reply is followed by %s" % (what, show(sends[1].args[2]) if len(sends) > 1 else "nothing"), where, "matching error")
        if len(sends) > 1 and res[1] is not None: X("C05", same_result(ctx, p, p.ret, res[1]), tag + ":result:SerFailed", "%s: the error send's result is not returned" % what, where, "result returned")
    else:
        X("C05", False, tag + ":reply-ignored", "%s: whether the reply could be sent is not examined" % what, where, "exactly one answer")
        X("C06", False, tag + ":reply-ignored", "%s: whether the reply could be sent is not examined" % what, where, "matching error")

DISP = "Abstract interpretation of the MIR that define_dispatch! generates for a witness program with one handler of every flavour (endpoints and topics x blocking/async/spawn, plus ping and schema discovery), for all four dispatcher widths x all four incoming key widths with symbolic key bytes. Each path is attributed to a message by the equality facts on the (folded) key bytes: a served path must pin every byte to that message's constant, an unknown-key path must contradict every registered key. "
ASM = ["handlers, spawner, postcard::from_bytes and the transport are arbitrary (uninterpreted) functions", "macro hygiene: the arms are generated per handler, so one handler per flavour is representative"]
@check("C05", DISP + "Rule: per path exactly one transport send answers an endpoint request (a second one only after the first failed), carrying the request's sequence number and the response key of the selected endpoint; a spawned handler gets the duty and the sender.", ASM)
def c05(ctx):
    dispatch(ctx, {"C05"})
    ctx.floor("exactly one answer", ctx.cov["rules"].get("exactly one answer", 0), 150)
@check("C06", DISP + "Rule: each error branch sends exactly the matching WireError variant under ERROR_KEY, and no handler call occurs on a path whose key is unknown / too small or whose decode failed.", ASM)
def c06(ctx):
    dispatch(ctx, {"C06"})
    ctx.floor("matching error", ctx.cov["rules"].get("matching error", 0), 100)
@check("C07", DISP + "Rule: a path that selects message M calls only M's handler, exactly once, with the header, the value decoded from the whole body as M's type and the dispatcher's context; topic paths never contain a transport send and return Ok.", ASM)
def c07(ctx):
    dispatch(ctx, {"C07"})
    ctx.floor("own handler only", ctx.cov["rules"].get("own handler only", 0), 60)
    ctx.floor("topics never answered", ctx.cov["rules"].get("topics never answered", 0), 40)
