"""C10 (key width), C20 (type lists), C22 (keys and lists of a declaration): values the
compiler computes for declarations, compared with independently derived ones."""
import json, os
from checks import check
from checks.header import at
from checks.keys import fold
from checks.util import *
from terms import *
from core import Missing
import core

# ------------------------------------------------------------------ constants as JSON
def kb_of(k):
    """bytes of a Key / Key4 / Key2 / Key1 constant"""
    v = k["f"][0]
    return tuple(v) if isinstance(v, list) else (v,)
def jfold(b, w):
    g = len(b) // w; out = []
    for i in range(w):
        x = 0
        for y in b[i * g:(i + 1) * g]: x ^= y
        out.append(x)
    return tuple(out)
def collide(keys, w): return len({jfold(k, w) for k in keys}) != len(keys)
def width_of(keys):
    for w in (1, 2, 4, 8):
        if not collide(keys, w): return w
    return None

# ------------------------------------------------------------------ C10
def sides(E, fact):
    """(byte tuple, byte tuple) an equality fact compares, or None"""
    if fact[0] != "eq": return None
    def b(t):
        if t[0] == "le": return tuple(canonbyte(x) for x in t[1]) if isinstance(t[1], tuple) else None
        if t[0] == "agg" and t[1] == "array": return tuple(canonbyte(x) for x in t[4])
        return (canonbyte(t),)
    l, r = b(fact[1]), b(fact[2])
    if l is None or r is None or len(l) != len(r): return None
    return l, r
class Eqs:
    """what the equality facts of a path say about which keys agree at which width: equal at w implies
    equal at every smaller width, and equality at one width is transitive"""
    def __init__(self, E, names):
        self.E = E; self.names = names; self.pairs = {}; self.single = {}; self.memo = {}
        fo = {}
        for n in names:
            bs = tuple(("elem", ("kb", ("sym", n)), I(i)) for i in range(8))
            for w in (1, 2, 4, 8):
                f = fo[n, w] = fold(bs, w)
                for i, x in enumerate(f): self.single.setdefault(x, []).append((n, w, i))
        for i, a in enumerate(names):
            for b in names[i + 1:]:
                for w in (1, 2, 4, 8):        # the order in which the bytes are compared does not matter
                    self.pairs[frozenset(frozenset(xy) for xy in zip(fo[a, w], fo[b, w]))] = (frozenset((a, b)), w)
    def about(self, fact):
        """((pair, width), None) of a comparison of whole keys, (.., byte index) of one of single bytes"""
        r = self.memo.get(fact, 0)
        if r != 0: return r
        r = None
        s = sides(self.E, fact)
        if s is not None:
            x = self.pairs.get(frozenset(frozenset(xy) for xy in zip(*s)))
            if x is not None and len(s[0]) == x[1]: r = [(x, None)]
            elif len(s[0]) == 1:
                r = [((frozenset((n, m)), w), i) for (n, w, i) in self.single.get(s[0][0], ()) for (m, w2, i2) in self.single.get(s[1][0], ()) if w == w2 and i == i2 and n != m] or None
        self.memo[fact] = r
        return r
    def known(self, facts):
        eq, ne, byte_eq = set(), set(), {}
        for k, v in facts.items():
            if v not in (0, 1) or k[0] != "eq": continue
            for pw, i in self.about(k) or ():
                if i is None: (eq if v == 1 else ne).add(pw)
                elif v == 0: ne.add(pw)
                else: byte_eq.setdefault(pw, set()).add(i)
        for pw, s in byte_eq.items():
            if len(s) == pw[1]: eq.add(pw)
        cls = {}
        for w in (1, 2, 4, 8):
            c = {n: n for n in self.names}
            def root(n):
                while c[n] != n: n = c[n]
                return n
            for pr, x in eq:
                if x >= w:
                    a, b = sorted(pr); c[root(a)] = root(b)
            cls[w] = {n: root(n) for n in self.names}
        nes = {w: {frozenset((cls[w][a] , cls[w][b])) for pr, x in ne if x == w for a, b in [sorted(pr)]} for w in (1, 2, 4, 8)}
        iseq = lambda pr, w: len({cls[w][n] for n in pr}) == 1
        isne = lambda pr, w: any(frozenset(cls[x][n] for n in pr) in nes[x] for x in (1, 2, 4, 8) if x <= w)
        return iseq, isne
    def oracle(self, st, t):
        ab = self.about(t)
        if not ab: return None
        iseq, isne = self.known(st.facts)
        for pw, i in ab:
            if iseq(*pw): return 1
            if i is None and isne(*pw): return 0
        return None
def widths(ctx):
    cands = [f for f in ctx.p.fns.values() if ctx.p.cid(f.key).endswith("server::min_key_needed")]
    if len(cands) != 1: raise Missing("server::min_key_needed")
    f = cands[0]
    shapes = [(1,), (2,), (3,), (1, 1), (2, 1), (1, 2), (0, 2), (2, 0, 1), (1, 1, 1), (2, 2), (4,), (3, 2), (1, 3), (2, 1, 1), (0, 0, 3)]
    if ctx.tier == "thorough": shapes += [(5,), (2, 3), (4, 1), (1, 4), (2, 2, 1)]
    n = 0
    for shape in shapes:
        names = ["K%d_%d" % (i, j) for i, l in enumerate(shape) for j in range(l)]
        pairs = [frozenset((a, b)) for i, a in enumerate(names) for b in names[i + 1:]]
        E = ctx.engine(unroll_nondet=True, max_paths=40000, max_steps=6000000)
        Q = Eqs(E, names); E.oracle = Q.oracle
        def prep(st):
            refs = []
            for i, l in enumerate(shape):
                st.mem[("heap", "l%d" % i)] = ("agg", "array", None, 0, tuple(("sym", "K%d_%d" % (i, j)) for j in range(l)))
                refs.append(("slice", ("heap", "l%d" % i), (), I(0), I(l)))
            st.mem[("heap", "ls")] = ("agg", "array", None, 0, tuple(refs))
        for p in ctx.run(f, E, args=[("slice", ("heap", "ls"), (), I(0), I(len(shape)))], prep=prep):
            iseq, isne = Q.known(p.facts)
            if p.end == "return":
                w = p.ret[1] if p.ret[0] == "int" else None
                if w not in (1, 2, 4, 8):
                    ctx.viol("width:value", "min_key_needed returns %s, which is no key width" % show(p.ret), at(f)); continue
                for pr in pairs:
                    ctx.expect(isne(pr, w), "width:unchecked-pair", "min_key_needed answers %d although keys %s of lists %s were not found distinct at that width" % (w, sorted(pr), list(shape)), at(f), "pairwise distinct at the answer")
                for x in (1, 2, 4, 8):
                    if x < w: ctx.expect(any(iseq(pr, x) for pr in pairs), "width:not-minimal", "min_key_needed answers %d although no two keys were found to collide at %d (lists %s)" % (w, x, list(shape)), at(f), "collision at every smaller width")
                n += 1
            elif p.end == "panic":
                ctx.expect(any(iseq(pr, 8) for pr in pairs), "width:spurious-reject", "min_key_needed rejects lists %s in which no two full keys are equal" % list(shape), at(f), "reject only equal keys")
            elif p.end != "unreachable":
                ctx.viol("width:end", "min_key_needed ends with %s (%s)" % (p.end, p.note), at(f))
    ctx.floor("paths of min_key_needed", n, 60)

# dispatchers of the witness crate whose smallest width is known from their keys alone
WIDTHS = ("w1", "in2", "out2", "in4", "out8", "err2")
def devmaps(ctx):
    """DeviceMap constants of the witness dispatchers, by module"""
    out = {}
    for k, v in ctx.p.crates["witness"].consts.items():
        if isinstance(v, dict) and v.get("adt", "").endswith("::DeviceMap"):
            out.setdefault("::".join(k.split("::")[:2]) if k.split("::")[1] in WIDTHS else "witness", []).append(v)
    return out
def fieldix(ctx, adt, name):
    return field_index(ctx, find_adt(ctx, adt), name)
def announced(ctx):
    maps = devmaps(ctx)
    KK = find_adt(ctx, "header::VarKeyKind")
    kinds = [v["name"] for v in ctx.p.adt(KK)["variants"]]
    ix = fieldix(ctx, "postcard_rpc::DeviceMap", "min_key_len")
    got = {}
    err = tuple(kb_of(all_consts(ctx)["witness_c::ERR"][1]))
    for m in WIDTHS:
        E = ctx.engine()
        def keys(fn):
            ps = [p for p in ctx.run(ctx.p.fns["witness::%s::%s" % (m, fn)], E) if p.end == "return"]
            if len(ps) != 1: raise Missing("witness::%s::%s" % (m, fn))
            return [tuple(x[3]) for x in ps[0].ret[4]]
        want = max(width_of(keys("in_keys")), width_of(keys("out_keys") + [err]))
        if m == "err2": ctx.expect(width_of(keys("out_keys")) < want, "witness-err", "the witness for the error key no longer depends on it", "", None)
        f = ctx.p.fns["witness::%s::width" % m]
        for p in ctx.run(f):
            if p.end != "return": continue
            v = poss(ctx, p, p.ret, KK)
            names = [kinds[i] for i in v]
            ctx.expect(names == ["Key%d" % want], "dispatch-width", "the dispatcher of %s matches with %s, the smallest collision-free width is %d bytes" % (m, names, want), at(f), "dispatcher width")
            got[m] = want
        mv = maps.get("witness::" + m, [])
        if len(mv) != 1: raise Missing("device map constant of witness::%s" % m)
        ctx.expect(kinds[mv[0]["f"][ix]["v"]] == "Key%d" % want, "announced-width", "the dispatcher of %s announces %s, the smallest collision-free width is %d bytes" % (m, kinds[mv[0]["f"][ix]["v"]], want), "server/dispatch_macro.rs", "announced width")
    ctx.expect(sorted(set(got.values())) == [1, 2, 4, 8], "witness-widths", "the witnesses no longer cover the four widths (%s)" % got, "", None)
    # each of the four dispatch implementations reports its own width
    n = 0
    for f in ctx.p.fns.values():
        d = ctx.p.defs.get(f.key, {})
        if d.get("name") != "min_key_len" or not d.get("impl_trait", "").endswith("server::Dispatch") or not f.key.startswith("witness::impls"): continue
        t = ctx.p.def_crate[f.key].types[d["self_ty"]].s
        w = t[t.rindex("<") + 1:t.rindex(">")].strip("{} ")
        for p in ctx.run(f):
            v = [kinds[i] for i in poss(ctx, p, p.ret, KK)]
            ctx.expect(v == ["Key" + w], "impl-width", "the %s-byte dispatcher reports %s" % (w, v), at(f), "dispatcher implementation"); n += 1
    ctx.floor("dispatcher implementations", n, 4)

def compile_fail(ctx):
    """declarations that must not compile, each with a compiling twin"""
    d = os.path.join(core.VERIF, "cfail")
    h = core.tree_hash(core.PKG, d + "/src", os.path.join(core.WITNESS, "src"))
    cache = os.path.join(core.BUILD, "cfail-%s.json" % h)
    if not os.path.exists(cache):
        r = core.sh(["cargo", "+nightly", "check", "--offline", "--bins", "--keep-going", "--message-format=json"], d, {"CARGO_TARGET_DIR": os.path.join(core.BUILD, "target"), "CARGO_INCREMENTAL": "0"})
        res = {}
        for l in r.stdout.splitlines():
            if not l.startswith("{"): continue
            j = json.loads(l)
            if j.get("reason") == "compiler-message" and j["message"]["level"] == "error":
                res.setdefault(j["target"]["name"], [])
                res[j["target"]["name"]].append([(j["message"].get("code") or {}).get("code"), j["message"]["message"]])
            if j.get("reason") == "compiler-artifact" and j["target"]["kind"] == ["bin"]: res.setdefault(j["target"]["name"], [])
        if not res: raise core.BuildError("compile-fail programs: " + r.stdout[-3000:])
        json.dump(res, open(cache, "w"))
    res = json.load(open(cache))
    n = 0
    for fn in sorted(os.listdir(d + "/src/bin")):
        name = fn[:-3]; why = open(d + "/src/bin/" + fn).readline().split(": ", 1)[1].strip()
        if name not in res: ctx.viol("cfail:not-built:" + name, "program %s was not checked by the compiler" % name); continue
        bad = [m for c, m in res[name] if m and not m.startswith("aborting")]
        n += 1
        if name.startswith("ok_"): ctx.expect(not bad, "cfail:" + name, "a legitimate program no longer compiles (%s): %s" % (why, bad[:1]), "cfail/src/bin/" + fn, "program compiles")
        else: ctx.expect(bool(bad), "cfail:" + name, "a program compiles that must be rejected: %s" % why, "cfail/src/bin/" + fn, "program rejected")
    ctx.floor("compile-fail programs", n, 21)

@check("C10", "min_key_needed is interpreted abstractly over lists of symbolic keys: on every path that answers w, every pair of keys is known distinct at w and some pair equal at each smaller width; witness dispatchers of all four widths are compared with an independently computed width (dispatch, announced constant); programs with undeclared handlers or identical keys are shown not to compile, next to compiling twins",
       ["list shapes of up to 5 keys in up to 3 lists stand for all shapes: the loops of min_key_needed are uniform in the indices", "rustc's constant evaluation"])
def c10(ctx):
    widths(ctx); announced(ctx); compile_fail(ctx)

# ------------------------------------------------------------------ C20
def tyinfo(ctx):
    DM = [k for k in ctx.p.adts if k.endswith("schema::DataModelType")]
    if len(DM) != 1: raise Missing("DataModelType")
    vs = ctx.p.adt(DM[0])["variants"]
    prim = {i for i, v in enumerate(vs) if not v["fields"] and v["name"] != "UnitStruct"}
    return prim
def nested(v, out, prim):
    """all named types reachable from a constant, with themselves"""
    if isinstance(v, list):
        for x in v: nested(x, out, prim)
    elif isinstance(v, dict):
        if v["adt"].endswith("schema::NamedType"):
            t = v["f"][1]
            if t["v"] not in prim: out.add(json.dumps(v, sort_keys=True))
        for x in v["f"]: nested(x, out, prim)
def tname(j): return json.loads(j)["f"][0]
def type_list(ctx, prim, got, roots, key, what, where):
    want = set(); nested(roots, want, prim)
    g = [json.dumps(x, sort_keys=True) for x in got]
    missing = sorted(tname(x) for x in want - set(g)); extra = sorted(tname(x) for x in set(g) - want)
    ctx.expect(not missing, key + ":missing", "%s lacks nested type(s) %s" % (what, missing), where, "every nested type listed")
    ctx.expect(not extra, key + ":extra", "%s contains %s, which is primitive or not part of the type" % (what, extra), where, "nothing else listed")
    ctx.expect(len(g) == len(set(g)), key + ":duplicate", "%s lists %s more than once" % (what, sorted({tname(x) for x in g if g.count(x) > 1})), where, "no duplicates")
def all_consts(ctx):
    ctx.const("witness_c::ERR")
    return ctx._wc
@check("C20", "the type lists the library's const functions produce for a matrix of witness types (every nesting position of the data model around every kind of nested type, equal names with other contents, equal contents with other names, merges) are read from the type-checked program and compared as sets with a walk of the schema constants; the lists of endpoints!, topics! and the device map likewise",
       ["rustc's constant evaluation", "two levels of every container around every other stand for all depths: the traversal is recursive through one function"])
def c20(ctx):
    prim = tyinfo(ctx)
    C = all_consts(ctx); n = 0
    for k, v in C.items():
        if not k.endswith("::GOT"): continue
        m = k[:-5]
        pos = m.split("::")[-1]; inner = m.split("::")[-2]
        type_list(ctx, prim, v, C[m + "::OF"], "list:%s" % pos, "the unique type list of %s around %s" % (pos, inner), "uniques.rs"); n += 1
    ctx.floor("type lists", n, 300)
    # lists of declarations
    tys = {}
    for k, v in C.items():
        if k.endswith("::WANT_TYS"): tys[k.split("::")[-2]] = v
    std_e = tys["ep_ping"] + tys["ep_schemas"]; std_o = tys["tp_data"] + tys["tp_log"]
    ti = fieldix(ctx, "postcard_rpc::EndpointMap", "types"); tt = fieldix(ctx, "postcard_rpc::TopicMap", "types"); td = fieldix(ctx, "postcard_rpc::DeviceMap", "types")
    U = lambda *a: [x for n in a for x in tys[n]]
    L = {"C_EPS": (ti, U("ep_blk", "ep_asy", "ep_spn", "ep_un1") + std_e), "C_LEPS": (ti, U("ep_lreq", "ep_lresp", "ep_lboth") + std_e), "C_OEPS": (ti, U("ep_om", "ep_omc")),
         "C_TPS_IN": (tt, U("tp_blk", "tp_asy", "tp_spn")), "C_TPS_OUT": (tt, U("tp_out") + std_o), "C_LTPS": (tt, U("tp_l", "tp_l2") + std_o), "C_OTPS": (tt, U("tp_om", "tp_omc"))}
    for name, (i, roots) in L.items():
        type_list(ctx, prim, C["witness_c::" + name]["f"][i], roots, "decl:" + name, "the type list of declaration %s" % name[2:], "macros.rs")
    mv = devmaps(ctx).get("witness", [])
    if len(mv) != 1: raise Missing("device map of the witness dispatcher")
    type_list(ctx, prim, mv[0]["f"][td], U("ep_blk", "ep_asy", "ep_spn", "ep_un1", "tp_blk", "tp_asy", "tp_spn", "tp_out") + std_e + std_o, "device-map", "the device map's type list", "server/dispatch_macro.rs")

# ------------------------------------------------------------------ C22
def strip_names(v):
    """a schema without type names (they do not travel)"""
    if isinstance(v, list): return [strip_names(x) for x in v]
    if isinstance(v, dict):
        if v["adt"].endswith("schema::NamedType"): return strip_names(v["f"][1])
        return {"adt": v["adt"], "v": v["v"], "f": [strip_names(x) for x in v["f"]]}
    return v
def device_map(ctx):
    """the map a dispatcher announces from is made of the lists it was declared with"""
    C = all_consts(ctx)
    def got(v): return sorted([[r[0]] + [list(kb_of(k)) for k in r[1:]] for r in v])
    mv = devmaps(ctx).get("witness", [])
    if len(mv) != 1: raise Missing("device map of the witness dispatcher")
    for fnm, name, adt, fl in (("endpoints", "C_EPS", "EndpointMap", "endpoints"), ("topics_in", "C_TPS_IN", "TopicMap", "topics"), ("topics_out", "C_TPS_OUT", "TopicMap", "topics")):
        g = got(mv[0]["f"][fieldix(ctx, "postcard_rpc::DeviceMap", fnm)]); w = got(C["witness_c::" + name]["f"][fieldix(ctx, "postcard_rpc::" + adt, fl)])
        ctx.expect(g == w, "devmap:" + fnm, "the device map's %s hold %s, the dispatcher was declared with %s" % (fnm, [r[0] for r in g], [r[0] for r in w]), "server/dispatch_macro.rs", "device map")
        ctx.floor("device map " + fnm, len(w), 3)
@check("C22", "the key, path and type constants of witness declarations through every arm of endpoint!, endpoints!, topic! and topics! are read from the type-checked program and compared with Key::for_path of the declared path and type, their shorter forms with the independent fold, and the declared lists and device map with the declarations; the standard protocol's keys and message schemas are compared between the host (use-std) and device (no_std) configurations",
       ["Key::for_path of postcard-schema derives distinct keys from path and schema", "rustc's constant evaluation"])
def c22(ctx):
    C = all_consts(ctx)
    decl = {}
    for k, v in C.items():
        if not k.endswith("::KEYS"): continue
        m = k[:-6]; name = m.split("::")[-1]
        path, want_path = C[m + "::PATH"]
        ctx.expect(path == want_path, "path:" + name, "declaration %s has path %r, declared %r" % (name, path, want_path), "macros.rs", "path constant")
        got = [kb_of(x) for x in v]; want = [kb_of(x) for x in C[m + "::WANT"]]
        for i, (g, w) in enumerate(zip(got, want)):
            role = ("request", "response")[i] if len(got) == 2 else "topic"
            ctx.expect(g == w, "key:%s:%s" % (name, role), "the %s key of %s is not derived from its path and %s type" % (role, name, role), "macros.rs", "key derived from own path and type")
            for wd, kn in ((4, "K4"), (2, "K2"), (1, "K1")):
                ctx.expect(kb_of(C[m + "::" + kn][i]) == jfold(g, wd), "short:%s:%s:%d" % (name, role, wd), "the %d-byte %s key of %s is not the fold of its full key" % (wd, role, name), "lib.rs", "short key constant")
        ctx.expect(C[m + "::TYS"] == C[m + "::WANT_TYS"], "types:" + name, "the types of %s are not the declared ones" % name, "macros.rs", "associated types")
        decl[name] = (want_path, want)
    ctx.floor("declarations", len(decl), 25)
    ctx.expect(kb_of(C["witness_c::ERR"][0]) == kb_of(C["witness_c::ERR"][1]), "key:error", "ERROR_KEY is not derived from the error path and WireError", "standard_icd.rs", "key derived from own path and type")
    def rows(names): return sorted([[decl[n][0]] + [list(k) for k in decl[n][1]] for n in names])
    def got(v): return sorted([[r[0]] + [list(kb_of(k)) for k in r[1:]] for r in v])
    ei = fieldix(ctx, "postcard_rpc::EndpointMap", "endpoints"); ti = fieldix(ctx, "postcard_rpc::TopicMap", "topics"); di = fieldix(ctx, "postcard_rpc::TopicMap", "direction")
    TD = find_adt(ctx, "postcard_rpc::TopicDirection"); dirs = [v["name"] for v in ctx.p.adt(TD)["variants"]]
    SE = ["ep_ping", "ep_schemas"]; SO = ["tp_data", "tp_log"]
    L = {"C_EPS": (ei, SE + ["ep_blk", "ep_asy", "ep_spn", "ep_un1"], None), "C_LEPS": (ei, SE + ["ep_lreq", "ep_lresp", "ep_lboth"], None), "C_OEPS": (ei, ["ep_om", "ep_omc"], None),
         "C_TPS_IN": (ti, ["tp_blk", "tp_asy", "tp_spn"], "ToServer"), "C_TPS_OUT": (ti, SO + ["tp_out"], "ToClient"), "C_LTPS": (ti, SO + ["tp_l", "tp_l2"], "ToClient"), "C_OTPS": (ti, ["tp_om", "tp_omc"], "ToServer")}
    for name, (i, names, dr) in L.items():
        v = C["witness_c::" + name]
        ctx.expect(got(v["f"][i]) == rows(names), "list:" + name, "list %s holds %s, declared are %s" % (name[2:], [r[0] for r in got(v["f"][i])], [r[0] for r in rows(names)]), "macros.rs", "declared list")
        if dr: ctx.expect(dirs[v["f"][di]["v"]] == dr, "direction:" + name, "list %s has the wrong direction" % name[2:], "macros.rs", "list direction")
    mv = devmaps(ctx).get("witness", [])
    if len(mv) != 1: raise Missing("device map of the witness dispatcher")
    for fnm, names in (("endpoints", L["C_EPS"][1]), ("topics_in", L["C_TPS_IN"][1]), ("topics_out", L["C_TPS_OUT"][1])):
        i = fieldix(ctx, "postcard_rpc::DeviceMap", fnm)
        ctx.expect(got(mv[0]["f"][i]) == rows(names), "devmap:" + fnm, "the device map's %s hold %s, declared are %s" % (fnm, [r[0] for r in got(mv[0]["f"][i])], [r[0] for r in rows(names)]), "server/dispatch_macro.rs", "device map")
    # host and device agree on the standard protocol
    ns = ctx.nostd(); W = lambda n: ctx.const("witness_ns::" + n, ns)
    for n, m in (("PING", "ep_ping"), ("SCHEMAS", "ep_schemas"), ("DATA", "tp_data"), ("LOG", "tp_log")):
        ctx.expect([kb_of(x) for x in W(n)] == [kb_of(x) for x in C["witness_c::%s::KEYS" % m]], "std-nostd:" + n, "host and device builds disagree on the keys of %s" % m, "standard_icd.rs", "host and device agree")
    ctx.expect(kb_of(W("ERR")[0]) == kb_of(C["witness_c::ERR"][0]), "std-nostd:ERR", "host and device builds disagree on the error key", "standard_icd.rs", "host and device agree")
    for n in ("DATA_TY", "TOTALS_TY", "ERR_TY", "LOG_TY"):
        ctx.expect(strip_names(W(n)) == strip_names(C["witness_c::" + n]), "std-nostd:" + n, "host and device builds disagree on the message layout of %s" % n, "standard_icd.rs", "host and device agree")
