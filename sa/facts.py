"""Loading of the MIR facts written by the `mirfacts` rustc driver."""
import json, os, re

class Ty:
    __slots__ = ("k", "s", "d", "prog_crate", "_args")
    def __init__(self, d):
        self.k = d["k"]; self.s = d["s"]; self.d = d
    def __repr__(self): return self.s

class Fn:
    def __init__(self, d, crate):
        self.d = d; self.key = d["key"]; self.crate = crate
        self.argc = d["argc"]; self.locals = d["locals"]; self.bbs = d["bbs"]
        self.coroutine = d.get("coroutine", False)
        self.promoted = d.get("promoted", [])
        self.file = d.get("file"); self.line = d.get("line")
        self.names = d.get("names", [])
        self._heads = None; self._bodies = None
    def succs(self, b):
        t = self.bbs[b]["t"]
        k = t[0]
        if k == "goto": return [t[1]]
        if k == "switch": return [x[1] for x in t[2]] + [t[3]]
        if k == "drop": return [t[2]]
        if k == "call": return [t[4]] if t[4] is not None else []
        if k == "assert": return [t[4]]
        if k == "yield": return [t[1]]
        return []
    def loop_heads(self):
        """blocks that are the target of a DFS back edge, with that edge set"""
        if self._heads is None:
            heads = set(); edges = set()
            color = {}
            stack = [(0, iter(self.succs(0)))]
            color[0] = 1
            while stack:
                b, it = stack[-1]
                for s in it:
                    c = color.get(s, 0)
                    if c == 1:
                        heads.add(s); edges.add((b, s))
                    elif c == 0:
                        color[s] = 1
                        stack.append((s, iter(self.succs(s))))
                        break
                else:
                    color[b] = 2
                    stack.pop()
            self._heads = (heads, edges)
        return self._heads
    def live_in(self, block):
        """locals whose value may still be used when control is at the start of `block`
        (locals that are ever borrowed count as always used)"""
        if getattr(self, "_live", None) is None:
            taken = set()
            def uses(x, out):
                if isinstance(x, list):
                    if len(x) == 2 and isinstance(x[0], int) and not isinstance(x[0], bool) and isinstance(x[1], list):
                        out.add(x[0])
                        for pr in x[1]:
                            if pr[0] == "i": out.add(pr[1])
                        return
                    for y in x: uses(y, out)
            gk = []
            for b in self.bbs:
                gen = set(); kill = set()
                def use(x):
                    o = set(); uses(x, o); gen.update(o - kill)
                for st in b["s"]:
                    if st[0] in ("live", "dead"): kill.add(st[1]); continue
                    if st[0] == "=":
                        if st[2][0] in ("ref", "rawptr", "addr"):
                            o = set(); uses(st[2], o); taken |= {st[2][-1][0]} if isinstance(st[2][-1], list) and not any(pr[0] == "*" for pr in st[2][-1][1]) else set()
                        use(st[2])
                        if st[1][1]: use(st[1])
                        else: kill.add(st[1][0])
                    else: use(st)
                t = b["t"]
                if t[0] == "call":
                    use(t[1]) if t[1][0] != "k" else None
                    use(t[2])
                    if t[3][1]: use(t[3])
                elif t[0] == "return": use([[0, []]])
                elif t[0] == "yield":
                    if t[2][1]: use(t[2])
                else: use(t)
                gk.append((gen, kill, {t[3][0]} if t[0] == "call" and not t[3][1] else {t[2][0]} if t[0] == "yield" and not t[2][1] else set()))
            live = [set() for _ in self.bbs]
            ch = True
            while ch:
                ch = False
                for i in range(len(self.bbs) - 1, -1, -1):
                    o = set()
                    for s2 in self.succs(i): o |= live[s2]
                    g, k, td = gk[i]
                    n = g | ((o - td) - k)
                    if n != live[i]: live[i] = n; ch = True
            self._live = (live, taken)
        live, taken = self._live
        return live[block] | taken
    def loop_bodies(self):
        """{head: blocks of its natural loop}, not counting the re-polling loops of `.await`"""
        if self._bodies is None:
            heads, edges = self.loop_heads()
            pred = {}
            for b, bb in enumerate(self.bbs):
                if bb["t"][0] == "yield": continue
                for s in self.succs(b): pred.setdefault(s, set()).add(b)
            out = {}
            for b, h in edges:
                body = {h}; work = [b]
                while work:
                    x = work.pop()
                    if x in body: continue
                    body.add(x); work.extend(pred.get(x, ()))
                if self.bbs[b]["t"][0] != "yield": out.setdefault(h, set()).update(body)
            # a real loop is reachable from its own head without a yield
            self._bodies = {}
            for h, body in out.items():
                seen = set(); work = [h]; ok = False
                while work:
                    x = work.pop()
                    if self.bbs[x]["t"][0] == "yield": continue
                    for s in self.succs(x):
                        if s == h: ok = True
                        if s in body and s not in seen: seen.add(s); work.append(s)
                if ok: self._bodies[h] = body
        return self._bodies

class Crate:
    def __init__(self, path):
        j = json.load(open(path))
        self.name = j["crate"]
        self.types = [Ty(t) for t in j["types"]]
        self.adts = j["adts"]; self.defs = j["defs"]; self.impls = j["impls"]
        self.consts = j.get("consts", {})
        self.fns = {}
        for f in j["fns"]:
            self.fns[f["key"]] = Fn(f, self)

class Prog:
    def __init__(self, paths):
        self.crates = {}
        self.fns = {}; self.defs = {}; self.adts = {}; self.def_crate = {}
        for p in paths:
            c = Crate(p)
            self.crates[c.name] = c
            self.fns.update(c.fns)
            for k, v in c.defs.items():
                if v is not None and (k not in self.defs or k.startswith(c.name + "::")):
                    self.defs[k] = v; self.def_crate[k] = c
            for k, v in c.adts.items():
                if k not in self.adts: self.adts[k] = (v, c)
        self._cid = {}
    def adt(self, key): 
        x = self.adts.get(key)
        return x[0] if x else None
    def cid(self, key):
        """canonical id of a function-like def, independent of impl numbering"""
        r = self._cid.get(key)
        if r is not None: return r
        d = self.defs.get(key)
        r = key
        if d:
            if "trait" in d: r = d["trait"] + "::" + d["name"]
            elif "impl_trait" in d: r = d["impl_trait"] + "::" + d["name"]
            elif "self_ty" in d:
                c = self.def_crate[key]
                t = c.types[d["self_ty"]]
                r = tybase(t, c) + "::" + d["name"]
        self._cid[key] = r
        return r
    def impl_fn(self, trait_suffix, name, self_pred):
        """bodies `<T as Trait>::name` whose Self type satisfies the predicate"""
        out = []
        for k, f in self.fns.items():
            d = self.defs.get(k)
            if d and d.get("impl_trait", "").endswith(trait_suffix) and d.get("name") == name:
                t = self.def_crate[k].types[d["self_ty"]]
                if self_pred(t): out.append(f)
        return out
    def inherent(self, adt_suffix, name):
        out = []
        for k, f in self.fns.items():
            d = self.defs.get(k)
            if d and d.get("name") == name and "self_ty" in d and "impl_trait" not in d:
                t = self.def_crate[k].types[d["self_ty"]]
                if t.k == "adt" and t.d["def"].endswith(adt_suffix): out.append(f)
        return out
    def impls_of(self, trait_suffix):
        out = []
        for c in self.crates.values():
            for i in c.impls:
                if i["trait"].endswith(trait_suffix):
                    out.append((i, c.types[i["self"]], c))
        return out

def tybase(t, c):
    if t.k == "adt": return t.d["def"]
    if t.k == "slice": return "[T]"
    if t.k == "array": return "[T;N]"
    if t.k == "ref": return "&" + tybase(c.types[t.d["to"]], c)
    if t.k == "prim": return t.s
    return t.s
