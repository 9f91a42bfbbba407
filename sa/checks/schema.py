"""C19 (schema discovery) and C23 (schema reports resolve keys)."""
from checks import check
from checks.header import at
from checks.usb import known, eq0, P2
from checks.util import *
from terms import *
from core import Missing
import numdom, models as M

LISTS = ("types", "endpoints", "topics_out", "topics_in")
ERR = ("ghost", "errors")
def gh(l): return ("ghost", l)

# ------------------------------------------------------------------ the device
def announce(ctx, prog, tag):
    saved = ctx.p; ctx.p = prog
    try: _announce(ctx, tag)
    finally: ctx.p = saved
def _announce(ctx, tag):
    f = ctx.inherent("server::Sender", "send_all_schemas"); W = at(f)
    DM = find_adt(ctx, "::DeviceMap"); TOT = find_adt(ctx, "standard_icd::SchemaTotals"); TD = find_adt(ctx, "::TopicDirection")
    SD = [k for k in ctx.p.adts if k.endswith(("standard_icd::OwnedSchemaData", "standard_icd::SchemaData"))]
    if len(SD) != 1: raise Missing("the schema data message type (%s)" % tag)
    SD = SD[0]
    V = {n: variant_index(ctx, SD, n) for n in ("Type", "Endpoint", "Topic")}
    FI = {n: [x[0] for x in ctx.p.adt(SD)["variants"][V[n]]["fields"]] for n in V}
    toclient, toserver = variant_index(ctx, TD, "ToClient"), variant_index(ctx, TD, "ToServer")
    dm = ("deref", ("arg", 3))
    lst = {l: ("fld", dm, 0, field_index(ctx, DM, l)) for l in LISTS}
    pub = ctx.p.cid(ctx.inherent("server::Sender", "publish").key); rep = ctx.p.cid(ctx.inherent("server::Sender", "reply").key)
    def content(l): return ("deref", lst[l])
    def entry(t):
        """(list, index) of the list entries a term mentions"""
        out = set()
        for x in subterms(t):
            if x[0] == "elem":
                for l in LISTS:
                    if x[1] == content(l): out.add((l, x[2]))
        return out
    def classify(data):
        """(list, index, problem) a schema data message announces"""
        if data[0] != "agg" or data[2] != SD: return None, None, "not a schema message that can be told apart"
        n = [k for k in V if V[k] == data[3]][0]
        a = dict(zip(FI[n], data[4]))
        es = entry(data)
        if len({l for l, _ in es}) != 1 or len(es) != 1: return None, None, "it does not describe one entry of the device map (%s)" % show(data)
        (l, i), = es
        el = ("elem", content(l), i)
        def conv(v, want):
            """the entry's part, as it is or converted to its owned form"""
            v = strip(v)
            w = {want, ("deref", want), ("&", want)} | ({want[1]} if want[0] == "deref" else set())
            if v in w: return True
            return v[0] == "call" and v[1].split("::")[-1] in ("from", "into", "to_string", "to_owned", "clone", "deref") and len(v) == 4 and conv(v[3], want)
        if n == "Type":
            if l != "types": return l, i, "an entry of %s is announced as a type" % l
            return l, i, None if conv(data[4][0], el) else "the type is not the entry of the list"
        if n == "Endpoint":
            if l != "endpoints": return l, i, "an entry of %s is announced as an endpoint" % l
            g = conv(a["path"], ("fld", el, 0, 0)) and a["request_key"] == ("fld", el, 0, 1) and a["response_key"] == ("fld", el, 0, 2)
            return l, i, None if g else "path, request key and response key are not those of the entry"
        if l not in ("topics_in", "topics_out"): return l, i, "an entry of %s is announced as a topic" % l
        if not (conv(a["path"], ("fld", el, 0, 0)) and a["key"] == ("fld", el, 0, 1)): return l, i, "path and key are not those of the entry"
        d = a["direction"]
        if d != ("agg", "adt", TD, toclient if l == "topics_out" else toserver, ()): return l, i, "an entry of %s is announced with direction %s" % (l, show(d))
        return l, i, None
    seen = {l: 0 for l in LISTS}; seen["reply"] = 0
    def hpub(E, st, ev, c):
        l, i, bad = classify(strip(ev.args[2]))
        ok_ = bad is None and l is not None
        nxt = None
        if l is not None:
            nxt = numdom.entails(st.lin, numdom.ge(i, st.mem[gh(l)])) and numdom.entails(st.lin, numdom.ge(st.mem[gh(l)], i)) if i != st.mem[gh(l)] else True
            st.mem[gh(l)] = add(i, I(1))
        ev.x = {"list": l, "index": i, "bad": bad, "next": nxt, "replied": st.mem[gh("reply")]}
    def awpub(E, st, fut, ref, c, destp, tgt, onret):
        from engine import Ev
        outs = []; s2 = st.fork()
        for s, k in ((st, 0), (s2, 1)):
            for fr in s.frames: fr.nondet = True
            n = s.fresh(); res = ok(UNIT) if k == 0 else err(("sym", "senderr", n))
            s.trace.append(Ev("await", fut[2], args=(E.deep(s, fut),), res=res, n=n, fn=c.fr.fn.key, line=c.line, file=c.file, stack=tuple(x.fn.key for x in s.frames)))
            if k: s.mem[ERR] = add(s.mem[ERR], I(1))
            r = E.apply_onret(s, onret, res, destp, tgt)
            outs.extend(r if r else [s])
        return outs
    def hrep(E, st, ev, c):
        ev.x = {"lin": list(st.lin), "facts": dict(st.facts), "errors": st.mem[ERR], "n": {l: st.mem[gh(l)] for l in LISTS}, "replied": st.mem[gh("reply")], "totals": E.deep(st, c.args[2])}
        st.mem[gh("reply")] = I(1)
    E = ctx.engine(merge=True, opaque=("Sender::publish", "Sender::reply"), models={"await:" + pub: awpub})
    E.hooks = {pub: hpub, rep: hrep}
    def prep(st):
        for l in LISTS: st.mem[gh(l)] = I(0)
        st.mem[ERR] = I(0); st.mem[gh("reply")] = I(0)
    for p in ctx.run(f, E, prep=prep):
        if p.end == "unreachable": continue
        for e in p.trace:
            if e.kind in ("panic", "maypanic") and not e.cid.startswith("overflow:"): ctx.viol("%s:panic:%s" % (tag, e.cid), "announcing the schemas can panic (%s)" % e.cid, e.at())
        if not ctx.expect(p.end in ("return", "loop"), tag + ":end", "announcing the schemas can end with %s (%s)" % (p.end, p.note), W): continue
        for e in p.trace:
            if e.kind != "call" or not e.x: continue
            if e.cid.endswith("Sender::publish"):
                ctx.expect(any("GetAllSchemaDataTopic" in str(g) for g in e.gargs), tag + ":topic", "schema data is published under %s" % (e.gargs,), e.at())
                ctx.expect(strip(e.args[0]) in (("arg", 1), ("deref", ("arg", 1))), tag + ":sender", "schema data is published by another sender", e.at())
                ctx.expect(len(awaits(p, e.res)) == 1, tag + ":await", "publishing schema data is not awaited", e.at())
                if not ctx.expect(e.x["bad"] is None, tag + ":message", "a published schema message is wrong: %s" % e.x["bad"], e.at()): continue
                ctx.expect(e.x["next"], tag + ":once", "the entries of %s are not announced one after the other, each once (entry %s)" % (e.x["list"], show(e.x["index"])), e.at())
                ctx.expect(e.x["replied"] == I(0), tag + ":late", "schema data is published after the totals", e.at())
                seen[e.x["list"]] += 1
            if e.cid.endswith("Sender::reply"):
                seen["reply"] += 1
                ctx.expect(any("GetAllSchemasEndpoint" in str(g) for g in e.gargs), tag + ":endpoint", "the totals are sent as an answer of %s" % (e.gargs,), e.at())
                ctx.expect(e.x["replied"] == I(0), tag + ":twice", "the totals are sent twice", e.at())
                ctx.expect(e.args[1] == ("fld", ("deref", ("arg", 2)), 0, field_index(ctx, find_adt(ctx, "header::VarHeader"), "seq_no")), tag + ":seq", "the totals do not carry the sequence number of the request (%s)" % show(e.args[1]), e.at())
                q = P2(e.x)
                for l in LISTS:
                    n = E.clen(content(l))
                    ctx.expect(eq0(q, e.x["n"][l], n), "%s:all:%s" % (tag, l), "the totals are sent after %s of %s entries of %s" % (show(e.x["n"][l]), show(n), l), e.at())
                t = strip(e.x["totals"])
                if ctx.expect(t[0] == "agg" and t[2] == TOT, tag + ":totals", "the totals are not understood", e.at()):
                    for fld_, l in (("types_sent", "types"), ("endpoints_sent", "endpoints"), ("topics_in_sent", "topics_in"), ("topics_out_sent", "topics_out")):
                        v = t[4][field_index(ctx, TOT, fld_)]; n = E.clen(content(l))
                        ctx.expect(uncast(v) == n or eq0(q, uncast(v), n), "%s:%s" % (tag, fld_), "%s is not the number of entries of %s (%s)" % (fld_, l, show(v)), e.at())
                    v = t[4][field_index(ctx, TOT, "errors")]
                    ctx.expect(uncast(v) == e.x["errors"] or eq0(q, uncast(v), e.x["errors"]), tag + ":errors", "errors is not the number of sends that failed (%s, not %s)" % (show(v), show(e.x["errors"])), e.at())
        if p.end == "return":
            rs = [e for e in p.trace if e.kind == "call" and e.cid.endswith("Sender::reply")]
            if ctx.expect(len(rs) == 1, tag + ":no-reply", "returns without having sent the totals", W):
                R = awaited(p, rs[0])
                ctx.expect(R is not None and same_result(ctx, p, p.ret, R), tag + ":result", "the outcome of the answer is not reported", W)
    for k, v in seen.items(): ctx.floor("%s: announced %s" % (tag, k), v, 1)
    ctx.rule("announcements (%s): %s" % (tag, sorted(seen.items())), sum(seen.values()))
def uncast(v):
    while v[0] == "op" and v[1] in ("trunc", "cast", "zext"): v = v[2]
    return v


# ------------------------------------------------------------------ the client
import itertools
def client(ctx, kmax):
    f = ctx.inherent("HostClient", "get_schema_report"); W = at(f)
    SD, TOT, TD, RPT = find_adt(ctx, "standard_icd::OwnedSchemaData"), find_adt(ctx, "standard_icd::SchemaTotals"), find_adt(ctx, "::TopicDirection"), find_adt(ctx, "::SchemaReport")
    SE = find_adt(ctx, "::SchemaError")
    VT, VE, VP = (variant_index(ctx, SD, n) for n in ("Type", "Endpoint", "Topic"))
    def names(a, v=0): return [x[0] for x in ctx.p.adt(a)["variants"][v]["fields"]]
    RF = names(RPT); TF = names(TOT)
    toclient, toserver = variant_index(ctx, TD, "ToClient"), variant_index(ctx, TD, "ToServer")
    sub = ctx.p.cid(ctx.inherent("HostClient", "subscribe_multi").key); req = ctx.p.cid(ctx.inherent("HostClient", "send_resp").key)
    add_ = {n: ctx.p.cid(ctx.inherent("SchemaReport", n).key) for n in ("add_type", "add_topic_in", "add_topic_out", "add_endpoint")}
    dflt = ctx.p.impl_fn("core::default::Default", "default", lambda t: t.k == "adt" and t.d["def"] == RPT)
    if len(dflt) != 1: raise Missing("Default of SchemaReport")
    def disc_of(p, v):
        s = poss(ctx, p, v, RES)
        return list(s)[0] if len(s) == 1 else None
    def item(i, k):
        s = lambda n: ("sym", "item", i, n)
        if k == "type": return ("agg", "adt", SD, VT, (s("ty"),))
        if k == "ep": return ("agg", "adt", SD, VE, tuple(s(n) for n in names(SD, VE)))
        return ("agg", "adt", SD, VP, tuple(("agg", "adt", TD, toserver if k == "in" else toclient, ()) if n == "direction" else s(n) for n in names(SD, VP)))
    def want(i, k):
        s = lambda n: ("sym", "item", i, n)
        return {"type": ("add_type", (s("ty"),)), "ep": ("add_endpoint", (s("path"), s("request_key"), s("response_key"))),
                "in": ("add_topic_in", (s("path"), s("key"))), "out": ("add_topic_out", (s("path"), s("key")))}[k]
    counts = (("types_sent", "type", None), ("endpoints_sent", "ep", "endpoints"), ("topics_in_sent", "in", "topics_in"), ("topics_out_sent", "out", "topics_out"))
    def ev(st, c, name, args, res):
        from engine import Ev
        st.trace.append(Ev("call", add_[name], args=args, res=res, n=st.fresh(), fn=c.fr.fn.key, line=c.line, file=c.file, stack=tuple(x.fn.key for x in st.frames)))
    def adder(name, field):
        def m(E, st, c, r, *args):
            args = tuple(E.deep(st, a) for a in args)
            if field is None: ev(st, c, name, args, UNIT); return UNIT
            s2 = st.fork()
            for s in (st, s2):
                for fr in s.frames: fr.nondet = True
            cell, path = E.deref(r)
            v = E.read(st, cell, path)
            old = fld(v, 0, RF.index(field))
            items = list(v[4]) if v[0] == "agg" else None
            if items is None: raise Missing("the report that is filled")
            items[RF.index(field)] = ("cat",) + (tuple(old[1:]) if old[0] == "cat" else (old,)) + (("one", ("agg", "entry", None, 0, args)),)
            E.write(st, cell, path, v[:4] + (tuple(items),), c.fr, c.line)
            ev(st, c, name, args, ok(UNIT)); e = err(("sym", "notype")); ev(s2, c, name, args, e)
            return [(st, ok(UNIT)), (s2, e)]
        return m
    def newrep(E, st, c, *a): return ("agg", "adt", RPT, 0, tuple(("sym", "primitives") if n == "types" else ("cat",) for n in RF))
    stats = {"runs": 0, "ok": 0, "lost": 0, "comms": 0}
    def go(kinds, totals, sym):
        stats["runs"] += 1
        def joined(E, st, fut, ref, c, destp, tgt, onret):
            from engine import Ev
            outs = []; s2 = st.fork()
            for s, res in ((st, ok(("agg", "array", None, 0, tuple(item(i, k) for i, k in enumerate(kinds))))), (s2, err(("sym", "joinerr")))):
                for fr in s.frames: fr.nondet = True
                s.trace.append(Ev("await", fut[2], args=(E.deep(s, fut),), res=res, n=s.fresh(), fn=c.fr.fn.key, line=c.line, file=c.file, stack=tuple(x.fn.key for x in s.frames)))
                r = E.apply_onret(s, onret, res, destp, tgt); outs.extend(r if r else [s])
            return outs
        def asked(E, st, fut, ref, c, destp, tgt, onret):
            from engine import Ev
            outs = []; s2 = st.fork()
            for s, res in ((st, ok(("agg", "adt", TOT, 0, totals))), (s2, err(("sym", "commserr")))):
                for fr in s.frames: fr.nondet = True
                s.trace.append(Ev("await", fut[2], args=(E.deep(s, fut),), res=res, n=s.fresh(), fn=c.fr.fn.key, line=c.line, file=c.file, stack=tuple(x.fn.key for x in s.frames)))
                r = E.apply_onret(s, onret, res, destp, tgt); outs.extend(r if r else [s])
            return outs
        models = {add_["add_type"]: adder("add_type", None), add_["add_topic_in"]: adder("add_topic_in", "topics_in"), add_["add_topic_out"]: adder("add_topic_out", "topics_out"),
                  add_["add_endpoint"]: adder("add_endpoint", "endpoints"), ctx.p.cid(dflt[0].key): newrep, dflt[0].key: newrep,
                  "await:tokio::task::spawn::spawn": joined, "await:" + req: asked}
        E = ctx.engine(opaque=("HostClient::subscribe_multi", "HostClient::send_resp", "tokio::task::spawn::spawn"), unroll=len(kinds) + 4, unroll_nondet=True, max_paths=20000, models=models)
        return E, ctx.run(f, E)
    collected = []
    def common(p):
        """the parts that do not depend on the messages: None, or the index of the first event that handles them"""
        subs, reqs, sps = calls(p, sub), calls(p, req), [e for e in p.trace if e.kind == "call" and e.cid.endswith("task::spawn::spawn")]
        for e in p.trace:
            if e.kind in ("panic", "maypanic"): ctx.viol("client:panic:%s" % e.cid, "get_schema_report can panic (%s)" % e.cid, e.at())
        if not ctx.expect(p.end == "return", "client:end", "get_schema_report ends with %s (%s)" % (p.end, p.note), W): return None
        if not ctx.expect(len(subs) == 1 and any("GetAllSchemaDataTopic" in str(g) for g in subs[0].gargs), "client:subscribe", "the schema topic is not subscribed once", W): return None
        s = awaited(p, subs[0])
        if s is None: ctx.viol("client:subscribe", "the subscription is not awaited", subs[0].at()); return None
        if disc_of(p, s) == 1:
            ctx.expect(p.ret[0] == "agg" and p.ret[3] == 1 and not reqs, "client:closed", "a failed subscription is not reported", W); return None
        if not ctx.expect(len(reqs) == 1 and any("GetAllSchemasEndpoint" in str(g) for g in reqs[0].gargs), "client:request", "the schemas are not requested once", W): return None
        ra = [e for e in p.trace if e.kind == "await" and e.args and e.args[0] == reqs[0].res]
        sa_ = [e for e in p.trace if e.kind == "await" and e.args and e.args[0] == subs[0].res]
        if not ctx.expect(len(ra) == 1, "client:request", "the request is not awaited once", reqs[0].at()): return None
        if not ctx.expect(len(sps) == 1, "client:collect", "no task collects the messages", W): return None
        T = p.trace
        ctx.expect(T.index(sa_[0]) < T.index(ra[0]), "client:order", "the request is sent before the subscription is in place", reqs[0].at(), "subscribed before the request is sent")
        ctx.expect(T.index(sps[0]) < T.index(ra[0]), "client:order", "the messages are collected only after the answer has arrived", sps[0].at(), "collecting before the request is sent")
        co = sps[0].args[0]
        if ctx.expect(co[0] == "agg" and co[1] == "coroutine" and fld(s, 0, 0) in co[4], "client:collect", "the collecting task does not use the subscription", sps[0].at()): collected.append((co, fld(s, 0, 0)))
        return ra[0].res
    for K in range(kmax + 1):
        for kinds in itertools.product(("type", "ep", "in", "out"), repeat=K):
            n = {k: sum(1 for x in kinds if x == k) for k in ("type", "ep", "in", "out")}
            for sym in (True, False):
                tv = {a: n[k] for a, k, _ in counts}; tv["errors"] = 0
                totals = tuple(("sym", "totals", x) if sym else I(tv[x]) for x in TF)
                E, ps = go(kinds, totals, sym)
                for p in ps:
                    if p.end == "unreachable": continue
                    ra = common(p)
                    if ra is None: continue
                    r = p.ret
                    join = [e for e in p.trace if e.kind == "await" and e.cid.endswith("spawn::spawn")]
                    failed = disc_of(p, ra) == 1 or (join and disc_of(p, join[0].res) == 1)
                    isok = r[0] == "agg" and r[3] == 0
                    if failed:
                        stats["comms"] += 1
                        ctx.expect(not isok, "client:comms", "a failed request or collection is reported as success", W)
                        if disc_of(p, ra) == 1: ctx.expect(mentions(r, lambda t: t == ("sym", "commserr")), "client:comms", "the error of the request is not reported", W)
                        continue
                    adds = [e for e in p.trace if e.kind == "call" and e.cid in add_.values()]
                    short = {v: k for k, v in add_.items()}
                    got = [(short[e.cid], tuple(strip(a) for a in e.args)) for e in adds]
                    bad = [e for e in adds if e.res[0] == "agg" and e.res[2] != None and e.res[3] == 1 and short[e.cid] != "add_type"]
                    exp = [want(i, k) for i, k in enumerate(kinds)]
                    if isok or not bad:
                        if not ctx.expect(sorted(map(repr, got)) == sorted(map(repr, exp)), "client:entries", "of the messages %s the report is given %s" % (list(kinds), [(a, [show(x) for x in b]) for a, b in got]), adds[0].at() if adds else W): continue
                    else:
                        if not ctx.expect(all(g in exp for g in got), "client:entries", "the report is given an entry that was not received", adds[0].at()): continue
                    lt = max([i for i, g in enumerate(got) if g[0] == "add_type"], default=-1); fo = min([i for i, g in enumerate(got) if g[0] != "add_type"], default=len(got))
                    nt = sum(1 for g in got if g[0] == "add_type")
                    ctx.expect(lt < fo and (fo == len(got) or nt == n["type"]), "client:types-first", "an endpoint or topic is resolved before all types received are known", adds[0].at() if adds else W)
                    if bad:
                        ctx.expect(not isok, "client:unresolved", "an entry whose type was not found is left out without an error", bad[0].at()); continue
                    if isok:
                        stats["ok"] += 1
                        for a, k, l in counts:
                            t_ = totals[TF.index(a)]
                            ctx.expect(eq0(p, t_, I(n[k])) if sym else t_ == I(n[k]), "client:complete:" + a, "a report is returned without %s having been compared with the number of messages received" % a, W, "report complete")
                        t_ = totals[TF.index("errors")]
                        ctx.expect(eq0(p, t_, I(0)) if sym else True, "client:complete:errors", "a report is returned although the device reported errors", W)
                        rep = r[4][0]
                        if ctx.expect(rep[0] == "agg" and rep[2] == RPT, "client:report", "what is returned is not the report that was filled", W):
                            for a, k, l in counts:
                                if l: ctx.expect(E.clen(rep[4][RF.index(l)]) == I(n[k]), "client:report", "the report returned lost entries of %s" % l, W)
                    else:
                        stats["lost"] += 1
                        ctx.expect(sym, "client:spurious", "a complete set of messages is refused", W, "complete reports accepted")
    ctx.rule("schema report of any of the message sequences up to length %d: %d runs, %d complete, %d refused, %d failed" % (kmax, stats["runs"], stats["ok"], stats["lost"], stats["comms"]), stats["runs"])
    for k in stats: ctx.floor("client " + k, stats[k], 1)
    # the collecting task
    ctx.floor("collecting task", len(collected), 1)
    done = set()
    for co, s in collected:
        if co[2] in done: continue
        done.add(co[2])
        E = ctx.engine(opaque=("MultiSubscription::recv",), unroll=3, unroll_nondet=True)
        n2 = 0
        for p in ctx.run(ctx.p.fns[co[2]], E, args=[co], subst=dict(co[5]) if len(co) > 5 else {}, prep=lambda st: setattr(st, "ctr", 1000), strict=False):
            if any(e.kind in ("panic", "maypanic") for e in p.trace): ctx.viol("client:collect-panic", "collecting the messages can panic", at(ctx.p.fns[co[2]]))
            if p.end != "return" or any(e.kind == "widen" for e in p.trace): continue
            n2 += 1
            vals = []
            for e in p.trace:
                if e.kind != "await" or not e.cid.endswith("MultiSubscription::recv"): continue
                if disc_of(p, e.res) == 0: vals.append(fld(e.res, 0, 0))
            v = p.ret
            items = [] if v == ("cat",) else [x[1] if x[0] == "one" else x for x in v[1:]] if v[0] == "cat" else list(v[4]) if v[0] == "agg" and v[1] == "array" else None
            ctx.expect(items is not None and sorted(map(repr, items)) == sorted(map(repr, vals)), "client:collected", "the messages collected are not the ones received (%s)" % show(v), at(ctx.p.fns[co[2]]), "collected messages")
        ctx.floor("ways the collection ends", n2, 3)

@check("C19", 'Device side (host and no_std builds): every path of send_all_schemas is interpreted with symbolic lists; a ghost counter per list shows that the next message published is the next entry of that list with its own path, keys and direction, that the totals follow only when every list is exhausted, and that they equal list lengths and the number of failed sends. Client side: get_schema_report is interpreted for every sequence of up to 4 (thorough: 5) messages of every kind, with symbolic contents and totals, failing requests, failing collection and unresolvable entries; Ok needs every count to be entailed equal and errors zero, complete announcements must be accepted, every received message must be handed to the report, types first. The map a dispatcher announces from is compared, as the compiler evaluates it, with the lists the dispatcher was declared with.',
       ['overflow of the 16-bit message counter and 32-bit totals is excluded', 'the client treats messages uniformly beyond the bound', "tokio's spawn, timeout and broadcast channel behave as documented"])
def c19(ctx):
    announce(ctx, ctx.p, "host build")
    announce(ctx, ctx.nostd(), "device build")
    from checks.icd import device_map
    device_map(ctx)
    client(ctx, 5 if ctx.tier == "thorough" else 4)

# ------------------------------------------------------------------ C23: what a report makes of an announced key
from checks.host import veq_models, veq
PRIM = {"bool": "Bool", "i8": "I8", "u8": "U8", "i16": "I16", "i32": "I32", "i64": "I64", "i128": "I128", "u16": "U16", "u32": "U32", "u64": "U64", "u128": "U128",
        "f32": "F32", "f64": "F64", "char": "Char", "alloc::string::String": "String", "str": "String", "&str": "String", "()": "Unit",
        "postcard_schema::schema::owned::OwnedNamedType": "Schema", "postcard_schema::schema::owned::OwnedDataModelType": "Schema", "postcard_schema::schema::NamedType": "Schema", "postcard_schema::schema::DataModelType": "Schema"}
def report(ctx):
    RPT = find_adt(ctx, "::SchemaReport"); TR = find_adt(ctx, "::TopicReport"); ER = find_adt(ctx, "::EndpointReport")
    def names(a): return [x[0] for x in ctx.p.adt(a)["variants"][0]["fields"]]
    RF = names(RPT)
    me = ("deref", ("arg", 1))
    part = {n: ("fld", me, 0, i) for i, n in enumerate(RF)}
    n = {}
    for fn, lst, adt, keys in (("add_topic_in", "topics_in", TR, (("key", "ty", 3),)), ("add_topic_out", "topics_out", TR, (("key", "ty", 3),)),
                               ("add_endpoint", "endpoints", ER, (("req_key", "req_ty", 3), ("resp_key", "resp_ty", 4)))):
        f = ctx.inherent("SchemaReport", fn); W = at(f); F = names(adt)
        E = ctx.engine(merge=True, models=veq_models(ctx.p))
        n[fn + " found"] = n[fn + " unknown"] = n[fn + " next"] = 0
        def strip2(t):
            while t[0] in ("&", "deref"): t = t[1]
            return t
        def is_types(t): return strip2(t) == part["types"] or (strip2(t)[0] == "agg" and strip2(t)[1] == "iter" and is_types(strip2(t)[4][0]))
        E2 = ctx.engine(unroll=4, unroll_nondet=True, models=veq_models(ctx.p))
        for p in ctx.run(f, E) + [q for q in ctx.run(f, E2, strict=False) if q.end == "return" and not any(e.kind == "widen" for e in q.trace)]:
            if p.end == "unreachable": continue
            for e in p.trace:
                if e.kind in ("panic", "maypanic"): ctx.viol("%s:panic" % fn, "%s can panic (%s)" % (fn, e.cid), e.at())
            if not ctx.expect(p.end in ("return", "loop"), fn + ":end", "%s ends with %s" % (fn, p.end), W): continue
            hashes = {}         # derived key -> (path, type)
            for e in calls(p, "Key::for_owned_schema_path"): hashes[e.res] = (strip(e.args[0]), strip2(e.args[1]))
            def matched(ty, key):
                """the key derived from the path and this type was found equal to the announced one"""
                return any(h[0] in (("arg", 2), ("deref", ("arg", 2))) and h[1] == strip2(ty) and p.facts.get(veq((r, key))) == 1 for r, h in hashes.items())
            def differs(it, key):
                return any(h[0] in (("arg", 2), ("deref", ("arg", 2))) and h[1] == it and p.facts.get(veq((r, key))) == 0 for r, h in hashes.items())
            stores = [e for e in p.trace if e.kind == "store" and strip(e.args[0]) != UNIT and mentions(e.args[0], lambda t: t == me)]
            if p.end == "loop":
                # an item that is passed over has been compared with a key that was asked for
                seg = p.trace
                w = [i for i, e in enumerate(p.trace) if e.kind == "widen"]
                if w: seg = p.trace[w[-1]:]
                items = [e for e in seg if e.kind == "next" and e.x is not None and is_types(e.args[0])]
                n[fn + " next"] += 1
                for e in items[-1:]:
                    it = ("item", e.args[0], e.n)
                    left = [k for _, _, k in keys if not differs(it, ("arg", k)) and not matched(it, ("arg", k))]
                    found = [d for d, v in p.facts.items() if d[0] == "discr" and d[1][0] == "lv" and d[2] == OPT and v == 1]
                    ctx.expect(len(left) < len(keys) or len(found) >= len(left), fn + ":skip", "a known type is passed over without comparing its key", W, "every type tried")
                ctx.expect(not stores, fn + ":early", "the report is changed while the types are still looked through", W)
                continue
            isok = p.ret[0] == "agg" and p.ret[3] == 0
            if isok:
                n[fn + " found"] += 1
                if not ctx.expect(len(stores) == 1 and strip(stores[0].args[0]) == part[lst], fn + ":list", "on success the report changes in %s, not just in %s" % ([show(e.args[0]) for e in stores], lst), W, "entry added"): continue
                v = stores[0].args[1]
                good = v[0] == "cat" and len(v) == 3 and v[1] == part[lst] and v[2][0] == "one" and v[2][1][0] == "agg" and v[2][1][2] == adt
                if not ctx.expect(good, fn + ":entry", "what is added is not one entry at the end of the list (%s)" % show(v), stores[0].at()): continue
                a = dict(zip(F, v[2][1][4]))
                ctx.expect(strip(a["path"]) == ("arg", 2), fn + ":path", "the entry's path is %s" % show(a["path"]), stores[0].at(), "path kept")
                for kf, tf, k in keys:
                    ctx.expect(a[kf] == ("arg", k), fn + ":key", "the entry's %s is %s" % (kf, show(a[kf])), stores[0].at(), "key kept")
                    it = strip2(a[tf])
                    if any(x.kind == "widen" for x in p.trace) and base_lv(it): ctx.rule("types carried round a loop: decided for up to three known types", 1); continue
                    ctx.expect(it[0] in ("item",) and is_types(it[1]), fn + ":type", "the entry's %s is not one of the known types (%s)" % (tf, show(it)), stores[0].at(), "type known")
                    ctx.expect(matched(a[tf], ("arg", k)), fn + ":resolve", "the entry's %s was not found to give the announced %s" % (tf, kf), stores[0].at(), "type gives the key")
            else:
                n[fn + " unknown"] += 1
                ctx.expect(not stores, fn + ":partial", "the report is changed although the type is not known", W)
                # the last search ran to its end
                ends = [e for e in p.trace if (e.kind == "next" or e.kind == "search") and is_types(e.args[0])]
                if not ctx.expect(bool(ends), fn + ":unsearched", "a key is refused without looking at the known types", W): continue
                e = ends[-1]
                if not any(x.kind in ("widen", "search") for x in p.trace):
                    its = [("item", x.args[0], x.n) for x in ends if x.x is not None and x.gargs == e.gargs]
                    ctx.expect(any(all(differs(i, ("arg", k)) for i in its) for _, _, k in keys), fn + ":missed", "a key is refused although one of the types tried gives it", W, "match kept")
                if e.kind == "next": ctx.expect(e.x is None, fn + ":unsearched", "a key is refused before all known types were tried", W, "search complete")
                else: ctx.expect(e.x == "empty" or e.x == "miss" and any(differs(strip2(e.args[1]), ("arg", k)) for _, _, k in keys), fn + ":unsearched", "a key is refused before all known types were tried", W, "search complete")
        for k in (" found", " unknown"): ctx.floor(fn + k, n[fn + k], 1)
    f = ctx.inherent("SchemaReport", "add_type")
    for p in ctx.run(f, ctx.engine()):
        ins = [e for e in p.trace if e.kind == "call" and e.cid.split("::")[-1] in ("insert", "replace", "get_or_insert")]
        ctx.expect(p.end == "return" and any(strip(e.args[0]) == part["types"] and e.args[1] == ("arg", 2) for e in ins), "add_type", "a type added is not put into the known types", at(f), "types kept")
    # every primitive is known from the start
    fs = ctx.p.impl_fn("core::default::Default", "default", lambda t: t.k == "adt" and t.d["def"] == RPT)
    if len(fs) != 1: raise Missing("Default of SchemaReport")
    DM = [k for k in ctx.p.adts if k.endswith("schema::DataModelType")]; OD = [k for k in ctx.p.adts if k.endswith("schema::owned::OwnedDataModelType")]
    if len(DM) != 1 or len(OD) != 1: raise Missing("DataModelType")
    want = {v["name"] for v in ctx.p.adt(DM[0])["variants"] if not v["fields"] and v["name"] != "UnitStruct"}
    ov = [v["name"] for v in ctx.p.adt(OD[0])["variants"]]
    for p in ctx.run(fs[0], ctx.engine()):
        if not ctx.expect(p.end == "return", "default:end", "the empty report cannot be made (%s)" % p.end, at(fs[0])): continue
        vals = [e.args[1] for e in p.trace if e.kind == "call" and e.cid.split("::")[-1] in ("insert", "replace") and len(e.args) > 1] + [p.ret]
        got = set()
        for v in vals:
            for t in subterms(v):
                if t[0] == "agg" and t[2] in OD: got.add(ov[t[3]])
                m = schema_of(t)
                if m in PRIM: got.add(PRIM[m])
        miss = sorted(want - got)
        ctx.expect(not miss, "default:primitives:" + ",".join(miss), "the report does not know the primitive type(s) %s, which devices leave out" % miss, at(fs[0]), "primitives known")
        ctx.floor("primitive types known", len(got), 15)
        for l in ("topics_in", "topics_out", "endpoints"):
            ctx.expect(p.ret[0] == "agg" and p.ret[4][RF.index(l)] == ("cat",), "default:" + l, "a new report starts with entries in %s" % l, at(fs[0]))
    ctx.rule("resolution outcomes %s" % sorted(n.items()), sum(n.values()))
def base_lv(t):
    while t[0] in ("fld", "&", "deref"): t = t[1]
    return t[0] == "lv"
def schema_of(t):
    """T of <T as Schema>::SCHEMA"""
    if t[0] in ("const", "assoc", "call", "cst", "named"):
        for i, x in enumerate(t[1:]):
            if isinstance(x, str) and x.endswith("Schema::SCHEMA"):
                g = t[i + 2] if len(t) > i + 2 else None
                return g[0] if isinstance(g, tuple) and g else g
    return None

@check("C23", "add_type, add_topic_in, add_topic_out, add_endpoint and the empty report are interpreted with a symbolic set of known types. Rules: success adds exactly one entry to the right list with the caller's path and key(s) and, per key, a known type whose derived key was compared equal to it; refusal leaves the report unchanged and follows a pass over all known types in which each was compared and differed; the empty report holds one type of every primitive kind of the data model.",
       ['Key::for_owned_schema_path is a function of path and type; HashSet iteration visits every element', 'types carried round a loop are decided for up to three known types'])
def c23(ctx):
    report(ctx)
