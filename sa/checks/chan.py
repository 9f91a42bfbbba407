"""C27, C28: what a server transport puts on the wire; the in-process channel transport."""
from checks import check
from checks.header import Names, KW, at
from checks.keys import fold
from checks.usb import VERS, device, sends, frame_of, is_timer, known, eq0
from checks.log import impossible
from checks.util import *
from terms import *
from core import Missing
import numdom, models as M

SRV = "server::impls::test_channels"
HOST = "host_client::test_channels"
NOISE = ("overflow:Add", "overflow:Mul")

def impl_of(ctx, trait, m, part):
    fs = [f for f in ctx.p.impl_fn(trait, m, lambda t: True) if "::%s::" % part in f.key]
    if len(fs) != 1: raise Missing("%s::%s of %s" % (trait, m, part))
    return fs[0]
def kind_of(ctx, trait, adt, ret_adt):
    """error variant -> variant of the error kind, from the conversion the server uses"""
    f = ctx.trait_fn(trait, "as_kind", lambda t: t.k == "adt" and t.d["def"] == adt, adt)
    out = {}
    for i, v in enumerate(ctx.p.adt(adt)["variants"]):
        val_ = ("agg", "adt", adt, i, tuple(("sym", "e%d" % n) for n in range(len(v["fields"]))))
        cell = ("heap", "err")
        def prep(st, v=val_): st.mem[cell] = v
        ks = {p.ret[3] if p.ret is not None and p.ret[0] == "agg" else None for p in ctx.run(f, args=[("ref", cell, ())], prep=prep) if p.end == "return"}
        out[i] = ks.pop() if len(ks) == 1 else None
    return out

# ------------------------------------------------------------------ content of a frame given to a channel
def pieces(p, v):
    """the parts a byte vector was put together from: ('hdr', header) / ('enc', value) / term"""
    v = strip(v)
    if v[0] == "cat":
        out = []
        for x in v[1:]: out += pieces(p, x)
        return out
    for e in p.trace:
        if e.kind != "call": continue
        if e.res == v and e.cid.endswith("VarHeader::write_to_vec"): return [("hdr", unref(e.args[0]))]
        if fld(e.res, 0, 0) == v and e.cid.endswith(("::to_stdvec", "::to_allocvec", "::to_vec")): return [("enc", e.args[0])]
        if fld(e.res, 0, 0) == v and e.cid.endswith(("::to_extend", "::to_io")) and len(e.args) > 1: return pieces(p, e.args[1]) + [("enc", e.args[0])]
    return [v]
def unref(v):
    if v[0] == "&": return v[1]
    if v[0] == "deref" and v[1][0] == "&": return v[1][1]
    return v

def stop_waited(p):
    """the stopper fired on this path"""
    return [e for e in p.trace if e.kind == "await" and e.cid.endswith("WaitQueue::wait")]
def no_stopper(ctx, p, adt):
    """the transport has no stopper on this path: nothing can end the wait but the channel"""
    a = ctx.p.adt(adt); c = ctx.p.crates[adt.split("::")[0]]
    for i, f in enumerate(a["variants"][0]["fields"]):
        if "Stopper" in c.types[f["ty"] if isinstance(f, dict) else f[1]].s:
            if poss(ctx, p, ("fld", ("deref", ("arg", 1)), 0, i), OPT) == {0}: return True
    return False

def channel_send(ctx, m, args, frame, kinds, closed, adt, tag=None):
    """one method of the channel transmitter. frame(E, p, parts, where) judges the parts of the frame"""
    f = impl_of(ctx, "server::WireTx", m, SRV.rsplit("::", 1)[1]); where = at(f); tag = tag or "channel:" + m
    E = ctx.engine(opaque=("VarHeader::write_to_vec",))
    seen = {"sent": 0, "closed": 0, "stopped": 0}
    for p in ctx.run(f, E, args=args):
        if p.end == "unreachable": continue
        enc = [e for e in p.trace if e.kind == "call" and e.cid.endswith(("::to_stdvec", "::to_allocvec", "::to_extend", "::to_vec", "::to_io")) and poss(ctx, p, e.res, RES) == {1}]
        if p.end == "panic" and enc: continue          # a Serialize impl that refuses: no frame
        if p.end == "forever" and no_stopper(ctx, p, adt): continue
        for e in p.trace:
            if e.kind in ("panic", "maypanic") and e.cid not in NOISE: ctx.viol("%s:panic:%s" % (tag, e.cid), "%s can panic (%s)" % (m, e.cid), e.at())
        if not ctx.expect(p.end == "return", "%s:end:%s" % (tag, p.end), "%s can end with %s (%s)" % (m, p.end, p.note), where, "paths"): continue
        ss = calls(p, "mpsc::bounded::Sender::send", "Sender::send", "Sender::try_send", "Sender::blocking_send", "Sender::send_timeout")
        r = poss(ctx, p, p.ret, RES)
        if not ctx.expect(len(r) == 1 and len(ss) <= 1, tag + ":once", "%s sends %d frames" % (m, len(ss)), where, "one frame per call"): continue
        for s in ss:
            ctx.expect(mentions(s.args[0], lambda t: t == ("arg", 1)), tag + ":channel", "the frame goes to %s instead of this transport's channel" % show(s.args[0]), s.at(), "own channel")
            frame(ctx, E, p, pieces(p, s.args[1]), s)
        res = awaited(p, ss[0]) if ss else None
        if ss and ss[0].cid.endswith("Sender::try_send"): ctx.viol(tag + ":lossy", "a frame is dropped when the channel is full", ss[0].at()); continue
        if r == {0}:
            if ctx.expect(res is not None and poss(ctx, p, res, RES) == {0}, tag + ":lost", "%s reports success although the frame was not handed to the channel" % m, where, "success only when sent"): seen["sent"] += 1
        else:
            e = p.ret[4][0] if p.ret[0] == "agg" else None
            why = "closed" if res is not None and poss(ctx, p, res, RES) == {1} else "stopped" if stop_waited(p) else None
            if why is None and enc and not ss: continue
            if ctx.expect(why is not None, tag + ":refused", "%s reports an error although the channel took the frame or was never asked" % m, where, "error only when closed"): seen[why] += 1
            ctx.expect(e is not None and e[0] == "agg" and kinds.get(e[3]) == closed, tag + ":kind", "%s reports a closed channel as %s" % (m, show(p.ret)), where, "closed channel is ConnectionClosed")
    for k, v in seen.items(): ctx.floor("%s %s" % (tag, k), v, 1)
    ctx.sample({"fn": f.key, "paths": seen})

def txkinds(ctx):
    TXK = find_adt(ctx, "server::WireTxErrorKind")
    return TXK, kind_of(ctx, "server::AsWireTxErrorKind", find_adt(ctx, SRV + "::ChannelWireTxError"), TXK), variant_index(ctx, TXK, "ConnectionClosed")

def given(ctx, E, p, parts, s):
    """header and message the caller gave"""
    good = len(parts) == 2 and parts[0] == ("hdr", ("arg", 2)) and parts[1][0] == "enc" and strip(parts[1][1]) in (("arg", 3), ("deref", ("arg", 3)))
    ctx.expect(good, "channel:send:frame", "the frame is %s, expected the caller's header followed by the caller's message" % [show(x[1]) if x[0] in ("hdr", "enc") else show(x) for x in parts], s.at(), "frame is header, message")
def raw(ctx, E, p, parts, s):
    ctx.expect(len(parts) == 1 and strip(parts[0]) in (("arg", 2), ("deref", ("arg", 2))), "channel:send_raw:frame", "the frame is %s, expected the caller's bytes" % [show(x) for x in parts], s.at(), "frame is the caller's bytes")

# ------------------------------------------------------------------ USB
def usb_send(ctx, ver):
    TXK = find_adt(ctx, "server::WireTxErrorKind")
    oth = [variant_index(ctx, TXK, "ConnectionClosed"), variant_index(ctx, TXK, "Timeout")]
    f, I_, E, ps = sends(ctx, ver, "send"); where = at(f); tag = ver[-4:] + ":send"
    seen = {"written": 0, "refused": 0}
    for p in ps:
        if p.end == "unreachable": continue
        if not ctx.expect(p.end in ("return", "loop"), tag + ":end:%s" % p.end, "send can end with %s (%s)" % (p.end, p.note), where): continue
        ws = calls(p, "EndpointIn::write")
        hs = calls(p, "VarHeader::write_to_slice"); bs = calls(p, "to_slice")
        okret = p.end == "return" and poss(ctx, p, p.ret, RES) == {0}
        sel = [e for e in p.trace if e.kind == "select"]
        expired = any(e.x < len(e.args) and is_timer(e.args[e.x]) for e in sel)
        if ws or okret:
            if not ctx.expect(len(hs) == 1 and len(bs) == 1 and frame_of(ctx, E, p, "send", None) is not None, tag + ":frame", "packets are written for a frame that was not put together from one header and one message directly behind it", where, "frame is header, message"): continue
            h = unref(hs[0].args[0])
            ctx.expect(h == ("arg", 2), tag + ":header", "the frame starts with the header %s, expected the caller's" % show(h), hs[0].at(), "caller's header")
            b = strip(bs[0].args[0])
            ctx.expect(b in (("arg", 3), ("deref", ("arg", 3))), tag + ":message", "the frame carries %s, expected the caller's message" % show(b), bs[0].at(), "caller's message")
            ctx.expect(poss(ctx, p, hs[0].res, OPT) == {1} and poss(ctx, p, bs[0].res, RES) == {0}, tag + ":partial", "packets are written although header or message did not fit into the transmit buffer", ws[0].at() if ws else where, "nothing is sent in part")
            seen["written"] += 1
        elif p.end == "return" and not expired:
            e = p.ret[4][0] if p.ret[0] == "agg" else None
            ctx.expect(e is not None and e[0] == "agg" and e[3] not in oth, tag + ":kind", "a message that does not fit is reported as %s" % show(p.ret), where, "too large is not a closed connection")
            nofit = any(poss(ctx, p, x.res, OPT) == {0} for x in hs) or any(poss(ctx, p, x.res, RES) == {1} for x in bs) or impossible(E, p, hs, bs)
            ctx.expect(nofit, tag + ":refused", "a message is refused although it fits into the transmit buffer", where, "refused only without room")
            seen["refused"] += 1
    ctx.floor(tag + " written", seen["written"], 2); ctx.floor(tag + " refused", seen["refused"], 2)
    ctx.sample({"fn": f.key, "paths": seen})

@check("C27", "The send functions of the server transports (embassy-usb 0.3 and 0.4, in-process channel) are interpreted with symbolic header, message and buffer. Rules: on every path that writes packets, or hands a frame to the channel, the frame is put together from exactly one header, the caller's, and directly behind it the encoding of the caller's message (a raw send: the caller's bytes); nothing is written when either did not fit; the refusal is not reported as a closed connection or a timeout; success is only reported when the frame was handed over.",
       ["VarHeader's own encoders are decided by C01, packetising by C15", "postcard::to_slice/to_stdvec encode the value they are given"])
def c27(ctx):
    for ver in VERS:
        usb_send(ctx, ver)
        # all of the frame's bytes, in order, and success only for all of them
        for m in ("send", "send_raw"): device(ctx, ver, m, "frame", ("frame", "order", "incomplete", "nothing-sent", "write-error", "write-ignored", "await", "budget", "end"))
    TXK, kinds, closed = txkinds(ctx)
    adt = find_adt(ctx, SRV + "::ChannelWireTx")
    channel_send(ctx, "send", None, given, kinds, closed, adt)
    channel_send(ctx, "send_raw", None, raw, kinds, closed, adt)

# ------------------------------------------------------------------ C28
def log_frame(N, kw, ref, adt, text):
    def judge(ctx, E, p, parts, s):
        tag = "channel:log"
        if not ctx.expect(len(parts) == 2 and parts[0][0] == "hdr" and parts[1][0] == "enc", tag + ":frame", "a log frame is %s" % [show(x[1]) if x[0] in ("hdr", "enc") else show(x) for x in parts], s.at(), "log frame is header, text"): return
        h = parts[0][1]
        k, q = fld(h, 0, N.hkey), fld(h, 0, N.hseq)
        good = k[0] == "agg" and k[2] == N.VK and k[3] == N.kvar[kw] and bytes_of(E, k[4][0], kw) == fold(ref, kw)
        ctx.expect(good, tag + ":key", "log frames for %d-byte keys carry the key %s, expected the logging topic's" % (kw, show(k)), s.at(), "log key")
        fa = [e for e in p.trace if e.kind == "call" and e.cid.endswith("::fetch_add")]
        sv = N.seq_val(q)
        ctx.expect(len(fa) == 1 and mentions(fa[0].args[0], lambda t: t == ("arg", 1)) and fa[0].args[1] == I(1) and sv is not None and sv[1] == fa[0].res, tag + ":seq", "log frames carry the sequence number %s, expected the next value of the log counter" % show(q), s.at(), "log sequence number")
        ctx.expect(text(p, parts[1][1]), tag + ":text", "a log frame carries the text %s" % show(parts[1][1]), s.at(), "log text")
    return judge
def str_text(p, v):
    v = strip(v)
    if v in (("arg", 3), ("deref", ("arg", 3))): return True
    if v[0] == "call" and v[1].endswith(("From::from", "Into::into", "ToOwned::to_owned", "ToString::to_string", "Clone::clone")) and len(v) > 3: return str_text(p, v[3])
    return any(e.kind == "call" and e.res == v and e.cid.split("[")[0].endswith(("::to_string", "::to_owned", "String::from", "::from", "::into")) and strip(e.args[0]) in (("arg", 3), ("deref", ("arg", 3))) for e in p.trace)
def fmt_text(p, v):
    v = strip(v)
    def holds(a): return mentions(a, lambda t: t == ("arg", 3))
    for e in p.trace:
        if e.kind == "call" and e.res == v:
            if e.cid.split("[")[0].endswith("::to_string"): return strip(e.args[0]) in (("arg", 3), ("deref", ("arg", 3)))
            if e.cid.endswith("fmt::format"): return only_args(e.args[0])
    return False
def only_args(a):
    """format_args of just the caller's arguments"""
    if strip(a) in (("arg", 3), ("deref", ("arg", 3))): return True
    lits = [t for t in subterms(a) if t[0] == "bytes"]
    disp = [t for t in subterms(a) if t[0] == "call" and "Argument::new_" in t[1]]
    return len(disp) == 1 and disp[0][1].endswith("new_display") and mentions(disp[0], lambda t: t == ("arg", 3)) and all(t[1] == (192, 0) for t in lits)

def receive(ctx):
    f = impl_of(ctx, "server::WireRx", "receive", SRV.rsplit("::", 1)[1]); where = at(f)
    RXK = find_adt(ctx, "server::WireRxErrorKind"); adt = find_adt(ctx, SRV + "::ChannelWireRx")
    kinds = kind_of(ctx, "server::AsWireRxErrorKind", find_adt(ctx, SRV + "::ChannelWireRxError"), RXK)
    closed = variant_index(ctx, RXK, "ConnectionClosed"); big = variant_index(ctx, RXK, "ReceivedMessageTooLarge")
    E = ctx.engine()
    BUF = ("ext", ("arg", 2))
    seen = {"frame": 0, "too large": 0, "closed": 0, "stopped": 0}
    for p in ctx.run(f, E):
        if p.end == "unreachable": continue
        if p.end == "forever" and no_stopper(ctx, p, adt): continue
        for e in p.trace:
            if e.kind in ("panic", "maypanic") and e.cid not in NOISE: ctx.viol("channel:receive:panic:%s" % e.cid, "receive can panic (%s)" % e.cid, e.at())
        if not ctx.expect(p.end == "return", "channel:receive:end:%s" % p.end, "receive can end with %s (%s)" % (p.end, p.note), where, "paths"): continue
        rs = calls(p, "Receiver::recv", "Receiver::try_recv", "Receiver::blocking_recv")
        aw = awaited(p, rs[0]) if len(rs) == 1 and rs[0].cid.endswith("::recv") else None
        for e in rs[1:]: ctx.viol("channel:receive:skip", "one receive takes more than one frame from the channel", e.at())
        got = aw is not None and poss(ctx, p, aw, OPT)
        r = poss(ctx, p, p.ret, RES)
        if r == {0}:
            if not ctx.expect(got == {1}, "channel:receive:invented", "receive returns a frame although none was taken from the channel", where): continue
            msg = fld(aw, 1, 0); n = E.clen(msg)
            v = M.view(E, p, p.ret[4][0])
            ctx.expect(v[:2] == (BUF, ()) and v[2] == I(0) and eq0(p, v[3], n), "channel:receive:length", "receive returns %s bytes from offset %s for a frame of %s bytes" % (show(v[3]), show(v[2]), show(n)), where, "whole frame returned")
            c = E.subc(E.read(p, BUF, ()), I(0), v[3])
            cont = E.read(p, BUF, ())
            same = strip(c) == msg or cont[0] == "wr" and cont[2] == I(0) and eq0(p, cont[3], n) and strip(cont[4]) in (msg, E.subc(msg, I(0), n)) or eq0(p, n, I(0))
            ctx.expect(same, "channel:receive:bytes", "receive returns %s, expected the bytes of the frame" % show(c), where, "frame's bytes")
            seen["frame"] += 1
        elif ctx.expect(r == {1} and p.ret[0] == "agg" and p.ret[4][0][0] == "agg", "channel:receive:result", "receive returns %s" % show(p.ret), where):
            k = kinds.get(p.ret[4][0][3])
            if got == {1}:
                msg = fld(aw, 1, 0); n = E.clen(msg)
                room = E.clen(("deref", ("arg", 2)))
                ctx.expect(known(p, Lt(room, n)) == 1, "channel:receive:refused", "a frame that fits into the buffer is refused", where, "refused only without room")
                ctx.expect(k == big, "channel:receive:too-large", "a frame that does not fit is reported as %s: the server would not carry on with the next one" % show(p.ret), where, "too large")
                seen["too large"] += 1
            else:
                why = "closed" if got == {0} else "stopped" if stop_waited(p) else None
                if ctx.expect(why is not None, "channel:receive:error", "receive fails although the channel is open", where): seen[why] += 1
                ctx.expect(k == closed, "channel:receive:closed", "a closed channel is reported as %s" % show(p.ret), where, "closed channel is ConnectionClosed")
    for k, v in seen.items(): ctx.floor("channel:receive " + k, v, 1)
    ctx.sample({"fn": f.key, "paths": seen})

def host(ctx):
    f = impl_of(ctx, "host_client::WireRx", "receive", HOST.rsplit("::", 1)[1]); where = at(f); n = 0
    for p in ctx.run(f):
        if p.end == "unreachable": continue
        if not ctx.expect(p.end == "return", "host:receive:end", "receive can end with %s (%s)" % (p.end, p.note), where): continue
        rs = calls(p, "Receiver::recv"); aw = awaited(p, rs[0]) if len(rs) == 1 else None
        if not ctx.expect(aw is not None, "host:receive:once", "receive takes %d frames" % len(rs), where): continue
        g = poss(ctx, p, aw, OPT)
        if g == {1}: ctx.expect(p.ret == ok(fld(aw, 1, 0)), "host:receive:frame", "the client receives %s, expected the frame as it was sent" % show(p.ret), where, "frame unchanged"); n += 1
        else: ctx.expect(g == {0} and poss(ctx, p, p.ret, RES) == {1}, "host:receive:closed", "a closed channel is reported as %s" % show(p.ret), where, "closed is an error")
    ctx.floor("host receive", n, 1)
    f = impl_of(ctx, "host_client::WireTx", "send", HOST.rsplit("::", 1)[1]); where = at(f); n = 0
    for p in ctx.run(f):
        if p.end == "unreachable": continue
        if not ctx.expect(p.end == "return", "host:send:end", "send can end with %s (%s)" % (p.end, p.note), where): continue
        ss = calls(p, "Sender::send"); aw = awaited(p, ss[0]) if len(ss) == 1 else None
        if not ctx.expect(aw is not None, "host:send:once", "send hands %d frames to the channel" % len(ss), where): continue
        ctx.expect(strip(ss[0].args[1]) == ("arg", 2), "host:send:frame", "the client sends %s, expected the frame as given" % show(ss[0].args[1]), ss[0].at(), "frame unchanged")
        ctx.expect(poss(ctx, p, p.ret, RES) == poss(ctx, p, aw, RES) and len(poss(ctx, p, aw, RES)) == 1, "host:send:result", "returns %s when the channel answered %s" % (show(p.ret), show(aw)), where, "send result")
        n += 1
    ctx.floor("host send", n, 2)

def built(ctx):
    """the server made from settings uses exactly those parts"""
    from checks.util import field_index as fi
    S = find_adt(ctx, SRV + "::dispatch_impl::Settings")
    tx, rx, buf, kk = (("fld", ("arg", 2), 0, fi(ctx, S, n)) for n in ("tx", "rx", "buf", "kkind"))
    SV = find_adt(ctx, "server::Server"); SD = find_adt(ctx, "server::Sender")
    TX = find_adt(ctx, SRV + "::ChannelWireTx"); RX = find_adt(ctx, SRV + "::ChannelWireRx"); ST = find_adt(ctx, "util::Stopper")
    def stopper_field(adt):
        c = ctx.p.crates["postcard_rpc"]
        l = [i for i, f in enumerate(ctx.p.adt(adt)["variants"][0]["fields"]) if "Stopper" in c.types[f["ty"] if isinstance(f, dict) else f[1]].s]
        if len(l) != 1: raise Missing("the stopper of " + adt)
        return l[0]
    for name in ("new_server", "new_server_stoppable"):
        f = ctx.p.fns.get("postcard_rpc::%s::dispatch_impl::%s" % (SRV, name))
        if f is None: raise Missing(name)
        E = ctx.engine(); where = at(f); stop = name != "new_server"; n = 0
        for p in ctx.run(f, E):
            if p.end == "unreachable": continue
            if not ctx.expect(p.end == "return", name + ":end", "%s can end with %s (%s)" % (name, p.end, p.note), where): continue
            sv = p.ret; st = None
            if stop: sv, st = fld(p.ret, 0, 0), fld(p.ret, 0, 1)
            if not ctx.expect(sv[0] == "agg" and sv[2] == SV, name + ":server", "returns %s" % show(sv), where): continue
            parts = list(sv[4]); snd = [x for x in parts if x[0] == "agg" and x[2] == SD]
            if not ctx.expect(len(snd) == 1, name + ":sender", "the server has no sender", where): continue
            parts.remove(snd[0])
            base = lambda v: v[1] if v[0] == "upd" else v
            ctx.expect(sorted(map(base, snd[0][4]), key=repr) == sorted((tx, kk), key=repr), name + ":tx", "the server sends through %s" % show(snd[0]), where, "sender uses the given transmitter and key width")
            b = [x for x in parts if base(x) != rx and x != ("arg", 1)]
            ctx.expect(any(base(x) == rx for x in parts) and ("arg", 1) in parts, name + ":parts", "the server does not use the given receiver and dispatcher", where, "receiver and dispatcher")
            ctx.expect(len(b) == 1 and eq0(p, E.clen(b[0]), buf), name + ":buffer", "the receive buffer is not of the configured size", where, "receive buffer size")
            for adt, pool in ((TX, snd[0][4]), (RX, parts)):
                x = [v for v in pool if base(v) == (tx if adt == TX else rx)]
                if not x: continue
                s = E.proj(x[0], ("f", 0, stopper_field(adt)))
                want = some(st) if stop else ("fld", base(x[0]), 0, stopper_field(adt))
                ctx.expect(s == want, name + ":stopper:" + adt.rsplit("::", 1)[1], "%s: the %s has the stopper %s, expected %s" % (name, "transmitter" if adt == TX else "receiver", show(s), "the one that is returned" if stop else "its own"), where, "stopper")
            if stop: ctx.expect(st[0] == "agg" and st[2] == ST, name + ":returned", "returns the stopper %s" % show(st), where)
            n += 1
        ctx.floor(name, n, 1)
    f = ctx.p.fns.get("postcard_rpc::%s::tokio_spawn" % SRV)
    if f is None: raise Missing("tokio_spawn")
    for p in ctx.run(f):
        sp = [e for e in p.trace if e.kind == "call" and e.cid.endswith("spawn::spawn")]
        ctx.expect(p.end == "return" and len(sp) == 1 and sp[0].args[0] == ("arg", 2) and poss(ctx, p, p.ret, RES) == {0}, "tokio_spawn", "tokio_spawn does not start the given future exactly once", at(f), "spawn")
        ab = [e for e in p.trace if e.kind == "call" and e.cid.endswith(("::abort", "::abort_handle", "::abort_all"))]
        ctx.expect(not ab, "tokio_spawn:abort", "tokio_spawn aborts the task it starts", ab[0].at() if ab else at(f), "spawn")

@check("C28", "The in-process channel transport is interpreted on both sides. Rules: the server's transmitter hands one frame per call to its own channel and reports success only then, a log frame holding the logging topic's key at the requested width, the next counter value and the text; the server's receiver takes one frame per call and returns exactly its bytes, or reports it as too large when it does not fit, in which case the server carries on; a closed channel or a fired stopper is reported as a closed connection in both directions; the client's side passes frames unchanged; a server built from settings uses exactly those parts, and the returned stopper stops both directions.",
       ["tokio's mpsc channel delivers in order without loss", "maitake's WaitQueue wakes its waiters"])
def c28(ctx):
    N = Names(ctx)
    E = ctx.engine()
    r = ctx.run(ctx.p.fns["witness::logging_key"], E)
    ref = bytes_of(E, r[0].ret, 8)
    if not all(is_int(b) for b in ref): raise Missing("the value of LoggingTopic::TOPIC_KEY")
    TXK, kinds, closed = txkinds(ctx)
    adt = find_adt(ctx, SRV + "::ChannelWireTx")
    for kw in KW:
        a = [("arg", 1), N.kind(kw), ("arg", 3)]
        channel_send(ctx, "send_log_str", a, log_frame(N, kw, ref, adt, str_text), kinds, closed, adt)
        channel_send(ctx, "send_log_fmt", a, log_frame(N, kw, ref, adt, fmt_text), kinds, closed, adt)
    channel_send(ctx, "send_raw", None, raw, kinds, closed, adt)
    receive(ctx); host(ctx); built(ctx)
