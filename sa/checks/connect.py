"""C30: connecting runs both workers on exactly the link the caller named."""
from checks import check
from checks.header import at
from checks.usb import VERS, known
from checks.util import *
from checks.host import Client, callee_name
from terms import *
from core import Missing

NW = ("HostClient::new_with_wire", "HostClient::new_with_wire_and_config")
TRY = "HostClient::try_from_nusb_and_interface"
STARTS = ("task::spawn::spawn", "runtime::handle::Handle::spawn")
STOPS = ("::abort", "::abort_handle", "::abort_all", "::shutdown", "::shutdown_background")

def started(ctx, p, fut):
    """events that start fut (or a task that does nothing but run it once)"""
    out = []
    for e in p.trace:
        if e.kind == "call" and e.cid.endswith(STARTS):
            v = strip(e.args[-1])
            if v == fut: out.append(e)
            elif v[0] == "agg" and v[1] == "coroutine" and fut in v[4]:
                ps = [q for q in ctx.run(ctx.p.fns[v[2]], ctx.engine(), args=[v], subst=dict(v[5]) if len(v) > 5 else {}) if q.end != "unreachable"]
                if ps and all(q.end == "return" and len([x for x in q.trace if x.kind == "await" and strip(x.args[0]) == fut]) == 1 for q in ps): out.append(e)
    return out

def spawners(ctx):
    fs = ctx.p.impl_fn("host_client::WireSpawn", "spawn", lambda t: True)
    for f in fs:
        where = at(f); tag = "spawn:" + f.key.split("::")[-3]; n = 0
        for p in ctx.run(f):
            if p.end == "unreachable": continue
            sp = started(ctx, p, ("arg", 2))
            ctx.expect(p.end == "return" and len(sp) == 1, tag, "a worker handed to the spawner is started %d times" % len(sp), where, "started once")
            for e in p.trace:
                if e.kind == "call" and e.cid.endswith(STOPS): ctx.viol(tag + ":stopped", "a worker is stopped right after it was started (%s)" % e.cid, e.at())
            n += 1
        ctx.floor(tag, n, 1)
    ctx.floor("spawners", len(fs), 4)
    # device side: embassy's spawner
    for ver in VERS:
        f = ctx.p.fns.get("postcard_rpc::server::impls::%s::embassy_spawn" % ver)
        if f is None: raise Missing("embassy_spawn of " + ver)
        for p in ctx.run(f):
            if p.end == "unreachable": continue
            i = calls(p, "WireSpawn::info"); s = calls(p, "Spawner::spawn", "Spawner::must_spawn")
            ok_ = p.end == "return" and len(s) == 1 and s[0].cid.endswith("::spawn") and s[0].args[-1] == ("arg", 2) and any(strip(s[0].args[0]) in (e.res, ("deref", e.res)) for e in i) and same_result(ctx, p, p.ret, s[0].res)
            ctx.expect(ok_, ver[-4:] + ":embassy_spawn", "embassy_spawn does not hand the token to the spawner once and return its answer", at(f), "token handed over")
        SP = find_adt(ctx, ver + "::EUsbWireSpawn")
        mk = ctx.trait_fn("convert::From", "from", lambda t: t.k == "adt" and t.d["def"] == SP, "EUsbWireSpawn")
        for p in ctx.run(mk): ctx.expect(p.end == "return" and p.ret[0] == "agg" and ("arg", 1) in p.ret[4], ver[-4:] + ":spawner", "EUsbWireSpawn is made with another spawner", at(mk), "given spawner")

def workers(ctx):
    C = Client(ctx); where = at(C.f)
    tasks = {}
    for e in C.spawns:
        ctx.expect(mentions(e.args[0], lambda t: t == ("arg", 3)), "workers:spawner", "a worker is started on %s" % show(e.args[0]), e.at(), "given spawner")
        for a, what in ((("arg", 1), "sending"), (("arg", 2), "receiving")):
            if mentions(e.args[1], lambda t: t == a): tasks.setdefault(what, []).append(e)
    for what in ("sending", "receiving"):
        n = len(tasks.get(what, ()))
        ctx.expect(n == 1, "workers:" + what, "connecting starts %d %s workers" % (n, what), where, "one worker per direction")
    # either a task of its own or one that runs both: two separate tasks is what the workers' rules (C11, C12) rely on
    ctx.expect(len(C.spawns) == 2, "workers:count", "connecting starts %d workers" % len(C.spawns), where, "one worker per direction")
    CF = find_adt(ctx, "host_client::util::HostClientConfig"); ti = field_index(ctx, CF, "subscriber_timeout_if_full")
    ctx.expect(C.timeout0 == ("fld", ("deref", ("arg", 4)), 0, ti), "workers:timeout", "the wait for a full subscription is %s, expected the configured one" % show(C.timeout0), where, "configured timeout")
    f = ctx.inherent("host_client::HostClient", "new_with_wire"); n = 0
    for p in ctx.run(f, opaque=("new_with_wire_and_config",)):
        if p.end == "unreachable": continue
        c = calls(p, "new_with_wire_and_config")
        if not ctx.expect(p.end == "return" and len(c) == 1 and p.ret == c[0].res, "wire:once", "new_with_wire does not build exactly one client", at(f)): continue
        ctx.expect(c[0].args[:3] == (("arg", 1), ("arg", 2), ("arg", 3)) or list(c[0].args[:3]) == [("arg", 1), ("arg", 2), ("arg", 3)], "wire:parts", "new_with_wire passes on %s" % [show(a) for a in c[0].args[:3]], c[0].at(), "given wire")
        g = strip(c[0].args[3]); t = g[4][ti] if g[0] == "agg" else g
        ctx.expect(zero(t), "wire:timeout", "new_with_wire makes the client wait %s for a full subscription, holding up everything else it receives" % show(t), c[0].at(), "no wait by default")
        n += 1
    ctx.floor("new_with_wire", n, 1)

def zero(t):
    if t[0] in ("const", "call", "constb") and mentions(t, lambda x: x == "ZERO" or isinstance(x, str) and x.endswith("::ZERO")): return True
    s = show(t)
    return s.startswith(("ZERO<", "Default::default<core::time::Duration>")) or s == "Duration#0{0, 0}" or t[0] == "call" and "Duration" in str(t[1]) and all(x == I(0) for x in t[3:]) 

def client_of(ctx, p, where, tag, argn):
    """the single client built on path p: (tx, rx, seq, err, depth, call)"""
    c = calls(p, *NW)
    if not ctx.expect(len(c) == 1, tag + ":once", "%d clients are built" % len(c), where, "one client"): return None
    c = c[0]; a = c.args
    if c.cid.endswith("new_with_wire"): return a[0], a[1], a[3], a[4], a[5], c
    CF = find_adt(ctx, "host_client::util::HostClientConfig"); g = strip(a[3])
    ix = [field_index(ctx, CF, n) for n in ("seq_kind", "err_uri_path", "outgoing_depth")]
    return (a[0], a[1]) + tuple(fld(g, 0, i) for i in ix) + (c,)

def serial(ctx):
    RX = find_adt(ctx, "serial::SerialWireRx"); TX = find_adt(ctx, "serial::SerialWireTx"); ACC = find_adt(ctx, "accumulator::raw::CobsAccumulator")
    for name, boxed in (("try_new_serial_cobs", True), ("new_serial_cobs", False)):
        f = ctx.inherent("host_client::HostClient", name); where = at(f); n = bad = 0
        E = ctx.engine(opaque=NW)
        for p in ctx.run(f, E, strict=False):
            if p.end == "unreachable": continue
            op = [e for e in p.trace if e.kind == "call" and e.cid.endswith(("::open_native_async", "SerialStream::open"))]
            failed = any(poss(ctx, p, e.res, RES) == {1} for e in op)
            if p.end == "panic" and not boxed: ctx.expect(failed, name + ":panic", "connecting panics although the port was opened", where); bad += 1; continue
            if not ctx.expect(p.end == "return", name + ":end", "connecting can end with %s (%s)" % (p.end, p.note), where, "paths"): continue
            if boxed and poss(ctx, p, p.ret, RES) == {1}:
                ctx.expect(failed and not calls(p, *NW), name + ":refused", "connecting fails although the port was opened", where, "fails only if the port does"); bad += 1; continue
            c = client_of(ctx, p, where, name, f.argc)
            if c is None: continue
            n += 1
            ctx.expect((fld(p.ret, 0, 0) if boxed else p.ret) == c[5].res, name + ":client", "returns %s" % show(p.ret), where, "that client")
            ctx.expect(len(op) == 1 and poss(ctx, p, op[0].res, RES) == {0}, name + ":opened", "%d ports are opened" % len(op), where, "one port")
            sb = [e for e in p.trace if e.kind == "call" and e.cid.endswith(("serialport::new", "tokio_serial::new"))]
            ctx.expect(len(sb) == 1 and strip(sb[0].args[0]) in (("arg", 1), ("deref", ("arg", 1))) and sb[0].args[1] == ("arg", 4) , name + ":port", "opens %s" % [[show(a) for a in e.args] for e in sb], where, "the given port at the given speed")
            sp = [e for e in p.trace if e.kind == "call" and e.cid.endswith("io::split::split")]
            if ctx.expect(len(sp) == 1 and op and fld(op[0].res, 0, 0) == sp[0].args[0], name + ":split", "the wires are not the two halves of the opened port", where, "halves of one port"):
                half = lambda i: ("fld", sp[0].res, 0, i)
                ctx.expect(mentions(c[0], lambda t: t == half(1)) and mentions(c[1], lambda t: t == half(0)), name + ":halves", "the client is built with %s / %s" % (show(c[0]), show(c[1])), c[5].at(), "halves of one port")
            acc = [t for t in subterms(c[1]) if t[0] == "agg" and t[2] == ACC]
            ctx.expect(len(acc) == 1 and any(x == I(0) for x in acc[0][4] if is_int(x)) and not any(is_int(x) and x != I(0) for x in acc[0][4]), name + ":accumulator", "the accumulator starts as %s" % [show(t) for t in acc], where, "empty accumulator")
            q = [e for e in p.trace if e.kind == "call" and "VecDeque::" in e.cid and not e.cid.endswith(("::new", "::with_capacity", "::default"))]
            ctx.expect(not q, name + ":queue", "the queue of received frames does not start empty", where, "empty queue")
            ctx.expect(c[2] == ("arg", 5) and strip(c[3]) in (("arg", 2), ("deref", ("arg", 2))) and c[4] == ("arg", 3), name + ":config", "the client is not built with the caller's sequence width, error path and queue depth", c[5].at(), "caller's configuration")
        ctx.floor(name, n, 1); ctx.floor(name + " refused", bad, 1)

def channels(ctx):
    f = ctx.p.fns.get("postcard_rpc::host_client::test_channels::new_from_channels")
    if f is None: raise Missing("new_from_channels")
    n = 0
    for p in ctx.run(f, ctx.engine(opaque=NW)):
        if p.end == "unreachable": continue
        if not ctx.expect(p.end == "return", "channels:end", "connecting can end with %s" % p.end, at(f)): continue
        c = client_of(ctx, p, at(f), "channels", f.argc)
        if c is None: continue
        ctx.expect(p.ret == c[5].res and mentions(c[0], lambda t: t == ("arg", 1)) and mentions(c[1], lambda t: t == ("arg", 2)), "channels:wires", "the client is built with %s / %s" % (show(c[0]), show(c[1])), c[5].at(), "given channels")
        ctx.expect(c[2] == ("arg", 3), "channels:seq", "the client's sequence width is %s" % show(c[2]), c[5].at(), "caller's configuration")
        ctx.expect(is_int(c[4]) and c[4][1] >= 1 or c[4][0] != "int" and not is_int(c[4]), "channels:depth", "the client's queue has depth %s" % show(c[4]), c[5].at())
        n += 1
    ctx.floor("channel clients", n, 1)
    f = ctx.p.fns.get("postcard_rpc::test_utils::local_setup")
    if f is None: raise Missing("local_setup")
    n = 0; SV = find_adt(ctx, "test_utils::LocalFakeServer")
    for p in ctx.run(f, ctx.engine(opaque=NW)):
        if p.end == "unreachable": continue
        if not ctx.expect(p.end == "return", "local:end", "connecting can end with %s" % p.end, at(f)): continue
        c = client_of(ctx, p, at(f), "local", f.argc)
        if c is None: continue
        sv = [t for t in subterms(p.ret) if t[0] == "agg" and t[2] == SV]; ch = calls(p, "mpsc::bounded::channel")
        if not ctx.expect(len(sv) == 1 and len(ch) == 2 and fld(p.ret, 0, 1) == c[5].res, "local:pair", "local_setup does not build one server and one client over two channels", at(f)): continue
        has = lambda v, e, i: mentions(v, lambda t: t == ("fld", e.res, 0, i))
        ctx.expect(any(has(c[0], a, 0) and has(sv[0], a, 1) and has(sv[0], b, 0) and has(c[1], b, 1) for a, b in (ch, ch[::-1])), "local:linked", "client and server are not linked to each other", c[5].at(), "linked pair")
        ctx.expect(strip(c[3]) in (("arg", 2), ("deref", ("arg", 2))), "local:config", "the client's error path is %s" % show(c[3]), c[5].at(), "caller's configuration")
        n += 1
    ctx.floor("local pairs", n, 1)

def derived(p, v, roots):
    """v is made from one of the roots by the calls on the path"""
    got = set(roots)
    for e in p.trace:
        if e.kind == "call" and e.res is not None and mentions(e.args, lambda t: t in got): got.add(e.res)
    return mentions(v, lambda t: t in got)

def asks(ctx, pred, i):
    """the predicate is the caller's filter, or a closure that answers what the filter answers"""
    pred = strip(pred)
    if pred == ("arg", i): return True
    if pred[0] == "agg" and pred[1] == "closure" and pred[2] in ctx.p.fns:
        for p in ctx.run(ctx.p.fns[pred[2]]):
            if p.end == "unreachable": continue
            fc = [e for e in p.trace if e.kind == "call" and e.cid.endswith(("FnMut::call_mut", "Fn::call", "FnOnce::call_once"))]
            if p.end != "return" or len(fc) != 1 or not (p.ret == fc[0].res or is_int(p.ret) and p.facts.get(fc[0].res) == p.ret[1]): return False
        return True
    return None

def nusb(ctx):
    for name, argv in (("try_new_raw_nusb", 1), ("new_raw_nusb", 1), ("try_new_raw_nusb_with_interface", 2)):
        f = ctx.inherent("host_client::HostClient", name); where = at(f); n = bad = 0; tr = name.startswith("try")
        E = ctx.engine(opaque=(TRY,))
        for p in ctx.run(f, E, strict=False):
            if p.end == "unreachable": continue
            ls = calls(p, "nusb::list_devices"); cn = calls(p, TRY)
            none = any(e.kind == "call" and e.cid.endswith(("::find", "::position", "::next", "::find_map")) and poss(ctx, p, e.res, OPT) == {0} for e in p.trace)
            why = none or any(poss(ctx, p, e.res, RES) == {1} for e in ls + cn)
            if p.end == "panic" and not tr: ctx.expect(why or any(e.kind in ("widen", "next") for e in p.trace), name + ":panic", "connecting panics although the device can be used", where); bad += 1; continue
            if not ctx.expect(p.end in ("return", "loop"), name + ":end", "connecting can end with %s (%s)" % (p.end, p.note), where, "paths"): continue
            if p.end == "loop": continue
            cl = calls(p, "InterfaceInfo::class")
            if cn and cl: ctx.expect(known(p, Eq(cl[-1].res, I(255))) == 1 or known(p, Eq(I(255), cl[-1].res)) == 1, name + ":class", "connects to an interface that is not of the vendor specific class 0xFF", cl[-1].at(), "vendor specific interface")
            if not cn and any(e.kind in ("widen", "next") for e in p.trace): bad += 1; continue      # searched by a loop
            if not cn:
                ctx.expect(tr and poss(ctx, p, p.ret, RES) == {1} and why, name + ":refused", "connecting gives up although a device and interface were found", where, "gives up only without device or interface"); bad += 1; continue
            if not ctx.expect(len(cn) == 1, name + ":once", "%d connections are made" % len(cn), where): continue
            c = cn[0]; n += 1
            ctx.expect(p.ret == (c.res if tr else fld(c.res, 0, 0)) or tr and same_result(ctx, p, p.ret, c.res), name + ":result", "returns %s" % show(p.ret), where, "that client")
            k = argv
            ctx.expect([strip(a) for a in c.args[2:]] == [("arg", k + 1), ("arg", k + 2), ("arg", k + 3)], name + ":config", "connects with %s" % [show(a) for a in c.args[2:]], c.at(), "caller's configuration")
            ctx.expect(derived(p, c.args[0], {e.res for e in ls}), name + ":device", "connects to %s, which is not one of the listed devices" % show(c.args[0]), c.at(), "a listed device")
            for i in range(1, k + 1):
                used = [e for e in p.trace if e.kind == "call" and mentions(e.args, lambda t: t == ("arg", i))]
                ctx.expect(used, name + ":filter%d" % i, "the caller's filter %d is not asked" % i, c.at(), "caller's filter")
                for e in used:
                    if e.cid.endswith(("::find", "::position", "::filter")):
                        ctx.expect(asks(ctx, e.args[-1], i) is not False, name + ":asked%d" % i, "devices or interfaces are not chosen by what the caller's filter answers", e.at(), "caller's filter")
                    if e.cid.endswith(("::find", "::position")):
                        want = c.args[0] if i == 1 else c.args[1]
                        ctx.expect(poss(ctx, p, e.res, OPT) == {1} and mentions(want, lambda t: t == fld(e.res, 1, 0)), name + ":chosen%d" % i, "connects to %s, not to what the caller's filter accepted" % show(want), c.at(), "caller's filter")
                    elif e.cid.endswith(("::skip_while", "::rposition", "::any", "::all")): ctx.viol(name + ":filter%d" % i, "the caller's filter is used by %s" % e.cid, e.at())
            ps = [e for e in p.trace if e.kind == "call" and e.cid.endswith("::position")]
            if ps: ctx.expect(any(c.args[1] == fld(e.res, 1, 0) for e in ps), name + ":interface", "connects to the interface %s" % show(c.args[1]), c.at(), "chosen interface")
            else: ctx.expect(not is_int(c.args[1]), name + ":interface", "connects to the interface %s" % show(c.args[1]), c.at(), "chosen interface")
        ctx.floor(name, n, 1); ctx.floor(name + " refused", bad, 1)
    # the built-in interface filter
    n = 0
    for k, f in sorted(ctx.p.fns.items()):
        if "::raw_nusb::" not in k or "{closure" not in k: continue
        if not any(b["t"][0] == "call" and (callee_name(ctx, b["t"]) or "").endswith("InterfaceInfo::class") for b in f.bbs): continue
        for p in ctx.run(f):
            if p.end == "unreachable": continue
            cl = calls(p, "InterfaceInfo::class")
            good = len(cl) == 1 and p.end == "return"
            if good:
                v = p.ret; k_ = known(p, Eq(cl[0].res, I(255)))
                good = v in (Eq(cl[0].res, I(255)), Eq(I(255), cl[0].res)) or k_ is not None and v == I(int(bool(k_)))
            ctx.expect(good, "interface-class", "an interface is chosen by %s, expected the vendor specific class 0xFF" % show(p.ret), at(f), "vendor specific interface")
            n += 1
    ctx.sample({"interface filters": n})

@check("C30", "The constructors of the client, for every transport that can be analysed here, are interpreted up to the generic constructor, and that one down to its two tasks. Rules: the generic constructor starts exactly one task with the given transmitter and one with the given receiver, on the given spawner; every host spawner starts the task it is given exactly once and does not stop it; the short form passes wire and settings on and does not wait for full subscriptions; the serial constructor opens the given port at the given speed and uses its two halves, an empty accumulator and an empty queue; the channel constructors use the given (or a freshly linked pair of) channels; the USB constructors connect to a listed device and an interface that passed the caller's filter (or is of class 0xFF) with the caller's settings; all of them fail only if the port, device or interface could not be found or opened. embassy_spawn hands the token to the given spawner and returns its answer.",
       ["tokio's and embassy's spawn run the task", "Iterator::find and position return an element their predicate accepted", "nusb lists the devices present"])
def c30(ctx):
    workers(ctx); spawners(ctx); serial(ctx); channels(ctx); nusb(ctx)
