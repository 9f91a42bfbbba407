"""C29: how a USB link is put together on either side."""
from checks import check
from checks.header import at
from checks.usb import VERS, PKT, Inner, known
from checks.util import *
from terms import *
from core import Missing
import numdom, models as M

NOISE = ("overflow:Add", "overflow:Mul")
# ------------------------------------------------------------------ host
SHAPES = ((), (0,), (1,), (2,), (3,), (1, 1), (2, 1), (1, 2))
DEEP = ((2, 2), (4,), (1, 1, 1))
def host_link(ctx, shape):
    f = [f for k, f in ctx.p.fns.items() if k.endswith("::try_from_nusb_and_interface")]
    if len(f) != 1: raise Missing("try_from_nusb_and_interface")
    f = f[0]; where = at(f)
    def descriptors(E, st, ev, c):
        ev.res = M.it("vals", ("cat",) + tuple(("one", ("sym", "alt%d" % i)) for i in range(len(shape))), I(0))
    def endpoints(E, st, ev, c):
        v = [t for t in subterms(E.deep(st, c.args[0])) if t[0] == "sym" and t[1].startswith("alt")]
        if len(set(v)) != 1: raise Missing("the alternate setting whose endpoints are listed")
        i = int(v[0][1][3:])
        ev.res = M.it("vals", ("cat",) + tuple(("one", ("sym", "ep%d_%d" % (i, j))) for j in range(shape[i])), I(0))
    E = ctx.engine(opaque=("HostClient::new_with_wire",), hooks={"Interface::descriptors": descriptors, "InterfaceAltSetting::endpoints": endpoints},
                   unroll_nondet=True, unroll=8, max_paths=20000, max_steps=1000000)
    TT = find_adt(ctx, "nusb::transfer::EndpointType"); DI = find_adt(ctx, "transfer::control::Direction")
    bulk = variant_index(ctx, TT, "Bulk"); out = variant_index(ctx, DI, "Out"); inn = variant_index(ctx, DI, "In")
    n = 0; bad_ = 0
    for p in ctx.run(f, E, strict=False):
        if p.end == "unreachable": continue
        for e in p.trace:
            if e.kind in ("panic", "maypanic") and e.cid not in NOISE: ctx.viol("host:panic:" + e.cid, "connecting can panic (%s)" % e.cid, e.at())
        if not ctx.expect(p.end == "return", "host:end:%s" % p.end, "connecting can end with %s (%s)" % (p.end, p.note), where, "paths"): continue
        eps = {}
        def ep_of(e):
            s = {t for t in subterms(e.args[0]) if t[0] == "sym" and t[1].startswith("ep")}
            return s.pop() if len(s) == 1 else None
        for e in p.trace:
            if e.kind != "call": continue
            for nm in ("transfer_type", "direction", "max_packet_size", "address"):
                if e.cid.endswith("Endpoint::" + nm): eps.setdefault(ep_of(e), {}).setdefault(nm, []).append(e)
        def is_bulk(x):
            for e in eps.get(x, {}).get("transfer_type", ()):
                for a in (Eq(("agg", "adt", TT, bulk, ()), e.res), Eq(e.res, ("agg", "adt", TT, bulk, ()))):
                    k = known(p, a)
                    if k is not None: return bool(k)
                vs = poss(ctx, p, e.res, TT)
                if bulk not in vs: return False
                if vs == {bulk}: return True
            return None
        def dirs(x):
            s = {0, 1}
            for e in eps.get(x, {}).get("direction", ()):
                s &= poss(ctx, p, e.res, DI)
                for d in (out, inn):
                    k = known(p, Eq(("agg", "adt", DI, d, ()), e.res))
                    if k is None: k = known(p, Eq(e.res, ("agg", "adt", DI, d, ())))
                    if k is not None: s &= {d} if k else {x_ for x_ in s if x_ != d}
            return s
        allep = [("sym", "ep%d_%d" % (i, j)) for i, m in enumerate(shape) for j in range(m)]
        outs = [x for x in allep if is_bulk(x) and dirs(x) == {out}]; ins = [x for x in allep if is_bulk(x) and dirs(x) == {inn}]
        may = lambda d: [x for x in allep if is_bulk(x) is not False and d in dirs(x)]
        nw = calls(p, "HostClient::new_with_wire")
        opened = [e for e in p.trace if e.kind == "call" and e.cid.endswith(("DeviceInfo::open", "Device::claim_interface"))]
        r = poss(ctx, p, p.ret, RES)
        if r == {1}:
            failed = any(poss(ctx, p, e.res, RES) == {1} for e in opened)
            ctx.expect(failed or not may(out) or not may(inn), "host:refused", "connecting fails although the interface has a bulk endpoint in each direction", where, "fails only without endpoints")
            ctx.expect(not nw, "host:refused-late", "connecting fails after the client was built", where)
            bad_ += 1; continue
        if not ctx.expect(r == {0} and len(nw) == 1, "host:once", "connecting returns %s with %d clients built" % (show(p.ret), len(nw)), where): continue
        n += 1
        c = nw[0]
        ctx.expect(fld(p.ret, 0, 0) == c.res, "host:client", "returns %s" % show(p.ret), where)
        ctx.expect(all(poss(ctx, p, e.res, RES) == {0} for e in opened) and len(opened) == 2, "host:opened", "a client is built on an interface that was not opened and claimed", c.at(), "opened and claimed")
        for e in opened:
            if e.cid.endswith("claim_interface"): ctx.expect(e.args[1] in (("arg", 2), ("op", "trunc", ("arg", 2), I(8)), ("lob", ("arg", 2), 1), ("byte", ("arg", 2), 0)), "host:interface", "claims the interface %s" % show(e.args[1]), e.at(), "the given interface")
        bo = calls(p, "Interface::bulk_out_queue"); bi = calls(p, "Interface::bulk_in_queue")
        chosen = None
        for qs, pool, what in ((bo, outs, "OUT"), (bi, ins, "IN")):
            hit = [x for x in pool for q in qs for e in eps[x].get("address", ()) if e.res == q.args[1]]
            if ctx.expect(len(qs) == 1 and hit, "host:endpoint:" + what, "the %s queue is opened on %s, which is not the address of a bulk %s endpoint of the interface" % (what, [show(q.args[1]) for q in qs], what), qs[0].at() if qs else where, "bulk endpoint of the right direction") and what == "OUT": chosen = hit[0]
        tx = [a for a in c.args if bo and mentions(a, lambda t: t == bo[0].res)]; rx = [a for a in c.args if bi and mentions(a, lambda t: t == bi[0].res)]
        ctx.expect(len(tx) == 1 and len(rx) == 1 and c.args.index(tx[0]) == 0 and c.args.index(rx[0]) == 1, "host:wires", "the client is built with %s / %s" % (show(c.args[0]), show(c.args[1])), c.at(), "queues handed to the client")
        ctx.expect([strip(a) for a in c.args[-3:]] == [("arg", 5), ("arg", 3), ("arg", 4)] or {("arg", 5), ("arg", 3), ("arg", 4)} <= {strip(a) for a in c.args}, "host:config", "the client is not built with the caller's sequence width, error path and queue depth", c.at(), "caller's configuration")
        if tx and chosen is not None:
            sizes = {e.res: x for x in outs for e in eps[x].get("max_packet_size", ())}
            m = [t for t in subterms(tx[0]) if t[0] == "agg" and t[2] == OPT]
            ok_ = len(m) == 1 and m[0][3] == 1
            if ok_:
                v = m[0][4][0]
                while v[0] == "cast": v = v[1]
                ok_ = v in sizes and all(v == s or numdom.entails(p.lin, numdom.ge(s, v)) for s, x in sizes.items() if x == chosen)
            ctx.expect(ok_, "host:packet-size", "the sender takes %s as the packet size, expected that of the bulk OUT endpoint" % [show(t) for t in m], c.at(), "packet size of the OUT endpoint")
        errs = [t for t in subterms(rx[0])] if rx else []
    return n, bad_

# ------------------------------------------------------------------ device
def device_link(ctx, ver):
    I_ = Inner(ctx, ver); n = 0
    TX = find_adt(ctx, ver + "::EUsbWireTx"); RX = find_adt(ctx, ver + "::EUsbWireRx")
    fs = [f for k, f in sorted(ctx.p.fns.items()) if "::%s::dispatch_impl::" % ver in k and k.rsplit("::", 1)[1].startswith("init")]
    if len(fs) < 2: raise Missing("the init functions of " + ver)
    for f in fs:
        where = at(f); name = f.key.rsplit("::", 1)[1]; tag = "%s:%s" % (ver[-4:], name)
        E = ctx.engine()
        for p in ctx.run(f, E):
            if p.end == "unreachable": continue
            if not ctx.expect(p.end == "return", tag + ":end", "%s can end with %s (%s)" % (name, p.end, p.note), where, "paths"): continue
            bi = calls(p, "endpoint_bulk_in"); bo = calls(p, "endpoint_bulk_out")
            if not ctx.expect(len(bi) == 1 and len(bo) == 1, tag + ":endpoints", "%s makes %d IN and %d OUT endpoints" % (name, len(bi), len(bo)), where): continue
            for e in bi + bo:
                sz = [a for a in e.args[1:] if is_int(a)]
                ctx.expect(sz == [I(PKT)], tag + ":packet-size", "%s makes an endpoint of packet size %s; frames are cut into packets of %d bytes" % (name, [show(a) for a in sz], PKT), e.at(), "endpoint packet size is the framing's")
            inner = [(e, t) for e in p.trace if e.kind == "call" and e.cid.endswith("Mutex::new") for t in e.args if t[0] == "agg" and t[2] == I_.adt]
            if not ctx.expect(len(inner) == 1, tag + ":state", "%s makes %d sender states" % (name, len(inner)), where): continue
            mk, st = inner[0]
            ctx.expect(st[4][I_.flag] == I(0), tag + ":mark", "%s starts with the mark of an interrupted frame set" % name, mk.at(), "no frame pending at the start")
            ctx.expect(any(strip(x) == ("arg", 4) for i, x in enumerate(st[4]) if i in I_.buf), tag + ":buffer", "the sender does not use the given transmit buffer", mk.at(), "given transmit buffer")
            ctx.expect(bi[0].res in st[4], tag + ":in", "the sender does not write to the IN endpoint", mk.at(), "sender writes to IN")
            for i in I_.ms:
                v = st[4][i]
                ctx.expect(is_int(v) and 1 <= v[1] <= 60000, tag + ":limit", "%s starts with a time limit of %s ms per packet" % (name, show(v)), mk.at(), "time limit in range")
            cell = calls(p, "StaticCell::init", "StaticCell::init_with")
            tx = [t for t in subterms(p.ret) if t[0] == "agg" and t[2] == TX]; rx = [t for t in subterms(p.ret) if t[0] == "agg" and t[2] == RX]
            ctx.expect(len(cell) == 1 and len(tx) == 1 and mk.res in cell[0].args and mentions(tx[0], lambda t: t == cell[0].res), tag + ":tx", "%s returns the transmitter %s" % (name, [show(t) for t in tx]), where, "transmitter uses that state")
            ctx.expect(len(rx) == 1 and bo[0].res in rx[0][4], tag + ":rx", "%s returns the receiver %s" % (name, [show(t) for t in rx]), where, "receiver reads OUT")
            n += 1
    ctx.floor("%s init paths" % ver, n, 2)
    # the configurable time limit
    for k, f in sorted(ctx.p.fns.items()):
        if "::%s::" % ver in k and k.endswith("::set_timeout_ms_per_frame"):
            where = at(f); E = ctx.engine(); m = 0
            for p in ctx.run(f, E):
                if p.end == "unreachable": continue
                if not ctx.expect(p.end == "return", ver[-4:] + ":timeout:end", "setting the time limit can end with %s" % p.end, where): continue
                lk = [e for e in p.trace if e.kind == "await" and e.cid.endswith("Mutex::lock")]
                if not ctx.expect(len(lk) == 1 and len(I_.ms) == 1, ver[-4:] + ":timeout:lock", "the time limit is not set under the sender's lock", where): continue
                v = E.read(p, ("ext", ("call", "deref", "", lk[0].res)), (("f", 0, I_.ms[0]),))
                a = ("arg", 2)
                lo, hi = known(p, Lt(a, I(1))), known(p, Lt(I(60000), a))
                ge = lambda x, y: numdom.entails(p.lin, numdom.ge(x, y))
                good = v == a and ge(a, I(1)) and ge(I(60000), a) or v == I(1) and ge(I(1), a) or v == I(60000) and ge(a, I(60000))
                ctx.expect(good, ver[-4:] + ":timeout:clamp", "the time limit becomes %s, expected the given one clamped to 1..=60000" % show(v), where, "time limit clamped")
                m += 1
            ctx.floor(ver + " time limit paths", m, 2)

@check("C29", "The functions that put a USB link together are interpreted. Host: for interfaces with up to four bulk or other endpoints in up to three alternate settings (more in the thorough tier), every path that yields a client opened and claimed the given interface, opened its OUT queue on the address of a bulk OUT endpoint and its IN queue on that of a bulk IN endpoint, handed these two to the client in that order together with the caller's sequence width, error path and depth, and told the sender a packet size that is that of an OUT endpoint and not larger than that of the one in use; it fails only when opening failed or an endpoint is missing. Device (both embassy-usb versions): both endpoints are made with the packet size the framing uses (C15, C17), the sender starts with no frame pending, the caller's buffer and a time limit in range, and sender and receiver use the endpoint of their direction; the time limit setter clamps to 1..=60000.",
       ["nusb's descriptors are what the device reported", "packet sizes of bulk endpoints divide one another (USB: 8 to 1024, powers of two)"])
def c29(ctx):
    n = bad = 0
    for s in SHAPES + DEEP + (((3, 2), (5,), (2, 1, 1)) if ctx.tier == "thorough" else ()):
        a, b = host_link(ctx, s); n += a; bad += b
        ctx.rule("interface shapes")
    ctx.floor("host links", n, 20); ctx.floor("host refusals", bad, 10)
    ctx.sample({"host links": n, "host refusals": bad, "shapes": [list(s) for s in SHAPES]})
    for ver in VERS: device_link(ctx, ver)
