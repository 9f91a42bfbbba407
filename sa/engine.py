"""Path-sensitive abstract interpreter over the MIR facts.

Abstract states: a value-numbered memory (terms.py), facts about terms, a set
of linear constraints, and the trace of events.  Paths are partitioned at
branches whose condition is not decided by the abstract state; loops are
widened at their heads (changed memory becomes fresh loop terms) and cut when
they come round again.  Nothing is executed and no solver is involved.
"""
import re, sys
from terms import *
import numdom
from facts import Prog, Fn, Ty, tybase

sys.setrecursionlimit(10000)

class Unsupported(Exception): pass

class Ev:
    __slots__ = ("kind", "cid", "self", "gargs", "args", "res", "fn", "line", "n", "x", "raw", "stack", "file")
    def __init__(self, kind, cid="", self_="", gargs=(), args=(), res=None, fn="", line=0, n=0, x=None, stack=(), file=""):
        self.kind = kind; self.cid = cid; self.self = self_; self.gargs = gargs; self.args = args
        self.res = res; self.fn = fn; self.line = line; self.n = n; self.x = x; self.stack = stack; self.file = file
    def __repr__(self):
        return "<%s %s%s(%s)%s @%s>" % (self.kind, "::".join(self.cid.split("::")[-2:]), "[%s]" % self.self if self.self else "",
                                     ", ".join(show(a, 5) for a in self.args), " x=%s" % (self.x,) if self.x else "", self.line)
    def at(self): return "%s:%s (%s)" % (self.file, self.line, self.fn)

class Frame:
    __slots__ = ("fn", "fid", "bb", "dest", "ret_bb", "subst", "onret", "visits", "nd", "body", "from_bb")
    def __init__(self, fn, fid, dest, ret_bb, subst, onret=None, body=None):
        self.fn = fn; self.fid = fid; self.bb = 0; self.dest = dest; self.ret_bb = ret_bb
        self.subst = subst; self.onret = onret; self.visits = {}; self.nd = 0
        self.body = body if body is not None else fn.bbs
        self.from_bb = None
    def undecided(self): self.nd += 1       # a choice was made here that the state does not decide
    nondet = property(None, lambda self, v: self.undecided())
    def copy(self):
        f = Frame.__new__(Frame)
        f.fn = self.fn; f.fid = self.fid; f.bb = self.bb; f.dest = self.dest; f.ret_bb = self.ret_bb
        f.subst = self.subst; f.onret = self.onret; f.visits = dict(self.visits); f.nd = self.nd
        f.body = self.body; f.from_bb = self.from_bb
        return f

class State:
    __slots__ = ("frames", "mem", "facts", "neg", "lin", "trace", "ctr", "end", "ret", "note", "fidc", "tyhint", "nonnull", "loops")
    def __init__(self):
        self.frames = []; self.mem = {}; self.facts = {}; self.neg = {}; self.lin = []
        self.trace = []; self.ctr = 0; self.end = None; self.ret = None; self.note = None; self.fidc = 0; self.loops = {}
    def fork(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem); s.facts = dict(self.facts); s.neg = dict(self.neg)
        s.lin = list(self.lin); s.trace = list(self.trace); s.ctr = self.ctr
        s.end = self.end; s.ret = self.ret; s.note = self.note; s.fidc = self.fidc; s.loops = dict(self.loops)
        return s
    def fresh(self):
        self.ctr += 1
        return self.ctr
    def events(self, kind=None):
        return [e for e in self.trace if kind is None or e.kind == kind]

class Call:
    """what a model sees"""
    __slots__ = ("key", "cid", "self", "gargs", "args", "st", "fr", "line", "file", "tgt", "dest_ty", "ikey", "iargs", "garg_ty", "dest")

PURE_DEFAULT = set()

class Engine:
    def __init__(self, prog, opaque=(), inline_extra=(), max_paths=4000, max_steps=400000, models=None,
                 pure=(), noinline=None, unroll=64, track_drops=False, widen_facts=True, unroll_nondet=False, merge=False, hooks=None):
        self.hooks = hooks or {}; self.oracle = None; self.ptr = 8
        self.merge = merge; self.seen_heads = set()
        self.unroll_nondet = unroll_nondet
        self.p = prog
        self.opaque = tuple(opaque)
        self.max_paths = max_paths; self.max_steps = max_steps
        import models as M
        self.models = dict(M.MODELS)
        if models: self.models.update(models)
        self.pure = set(M.PURE) | set(pure)
        self.noinline = noinline or (lambda key, cid: False)
        self.unroll = unroll
        self.track_drops = track_drops
        self.impl_index = None
        self.functions = set()       # bodies analysed
        self.callsites = 0
        self.obligations = 0
        self.truncated = False
        self._tyc = {}
        self.max_depth = 24; self.max_time = 150

    # ------------------------------------------------------------ types
    def tystr(self, crate, idx, subst):
        if idx is None: return "'_"
        if isinstance(idx, dict):
            c = idx["c"]
            return str(subst.get(str(c), c)) if subst else str(c)
        t = crate.types[idx]
        ck = (crate.name, idx)
        if not subst or t.k == "prim":
            r = self._tyc.get(ck)
            if r is None:
                r = self._tystr(crate, t, subst)
                if not subst or t.k == "prim": self._tyc[ck] = r
            return r
        return self._tystr(crate, t, subst)
    def _tystr(self, crate, t, subst):
        d = t.d
        if t.k == "param": return subst.get(d["name"], d["name"])
        if t.k == "adt":
            a = [self.tystr(crate, x, subst) for x in d["args"] if x is not None]
            return d["def"] + ("<%s>" % ", ".join(a) if a else "")
        if t.k == "ref": return ("&mut " if d["mut"] else "&") + self.tystr(crate, d["to"], subst)
        if t.k == "slice": return "[%s]" % self.tystr(crate, d["of"], subst)
        if t.k == "array": return "[%s; %s]" % (self.tystr(crate, d["of"], subst), subst.get(str(d["len"]), d["len"]))
        if t.k == "tuple": return "(%s)" % ", ".join(self.tystr(crate, x, subst) for x in d["of"])
        if t.k in ("closure", "coroutine", "fndef"): return "{%s}" % d["def"]
        s = t.s
        if t.k == "alias" and subst:
            for k, v in subst.items():
                if k[0] != "'": s = re.sub(r"(?<![\w:])%s(?![\w])" % re.escape(k), lambda m: v, s)
        return s

    # ------------------------------------------------------------ memory
    def deref(self, v):
        if v[0] == "ref": return v[1], v[2]
        if v[0] == "slice":
            return v[1], v[2] + (("sl", v[3], v[4]),)
        if v[0] == "&": # deep snapshot used as value
            return ("ext", v), ()
        return ("ext", v), ()
    def load(self, st, cell):
        v = st.mem.get(cell)
        if v is None:
            if cell[0] == "ext":
                t = cell[1]
                return t[1] if t[0] == "&" else ("deref", t)
            return UNDEF
        return v
    def read(self, st, cell, path):
        v = self.load(st, cell)
        for s in path: v = self.proj(v, s)
        return v
    def clen(self, v):
        """length of array/slice content"""
        if v[0] == "agg" and v[1] == "array": return I(len(v[4]))
        if v[0] == "sub": return v[3]
        if v[0] in ("wr",): return self.clen(v[1])
        if v[0] == "rep": return v[2]
        if v[0] == "str": return I(len(v[1].encode()))
        if v[0] == "bytes": return I(len(v[1]))
        if v[0] == "cat":
            r = I(0)
            for x in v[1:]: r = add(r, self.clen(x))
            return r
        if v[0] == "one": return I(1)
        if v[0] in ("hv", "hvr"): return self.clen(v[1])
        if v[0] == "mod" and v[3][0] == "sub": return v[3][3]
        if v[0] == "op" and v[1] == "chunk": return op("chunklen", v[2], v[3])
        return op("len", v)
    def elem(self, v, i):
        if v[0] == "agg" and v[1] == "array":
            if i[0] == "int" and 0 <= i[1] < len(v[4]): return v[4][i[1]]
        if v[0] == "bytes" and i[0] == "int" and i[1] < len(v[1]): return I(v[1][i[1]])
        if v[0] == "rep": return v[1]
        if v[0] == "sub": return self.elem(v[1], add(v[2], i))
        if v[0] == "one" and i == I(0): return v[1]
        if v[0] == "cat" and i[0] == "int":
            off = I(0)
            for x in v[1:]:
                l = self.clen(x)
                d = sub(i, off)
                if d[0] == "int" and l[0] == "int":
                    if 0 <= d[1] < l[1]: return self.elem(x, d)
                    off = add(off, l); continue
                break
        if v[0] == "wr":
            _, base, off, ln, content = v
            d = sub(i, off)
            if d[0] == "int" and ln[0] == "int":
                if 0 <= d[1] < ln[1]: return self.elem(content, d)
                return self.elem(base, i)
            if d[0] == "int" and d[1] < 0: return self.elem(base, i)
            e = sub(d, ln)
            if e[0] == "int" and e[1] >= 0: return self.elem(base, i)
        if v[0] == "hvr":                 # unknown from v[2] on
            d = sub(v[2], i)
            if d[0] == "int" and d[1] > 0: return self.elem(v[1], i)
        return ("elem", v, i)
    def subc(self, v, lo, ln):
        """content of v[lo..lo+ln]"""
        if lo == I(0) and ln == self.clen(v): return v
        if v[0] == "sub": return self.subc(v[1], add(v[2], lo), ln)
        if lo[0] == "int" and ln[0] == "int":
            if v[0] == "agg" and v[1] == "array" and lo[1] + ln[1] <= len(v[4]):
                return ("agg", "array", None, 0, v[4][lo[1]:lo[1] + ln[1]])
            if v[0] == "bytes": return ("bytes", v[1][lo[1]:lo[1] + ln[1]])
            if v[0] == "cat":
                # exact alignment on parts
                off = 0; parts = []
                for x in v[1:]:
                    l = self.clen(x)
                    if l[0] != "int": break
                    s, e = max(lo[1], off), min(lo[1] + ln[1], off + l[1])
                    if s < e: parts.append(self.subc(x, I(s - off), I(e - s)))
                    off += l[1]
                if sum(self.clen(x)[1] for x in parts) == ln[1]:
                    return parts[0] if len(parts) == 1 else ("cat",) + tuple(parts)
        if v[0] == "rep": return ("rep", v[1], ln)
        if v[0] == "wr":
            _, base, off, wl, content = v
            if off == lo and wl == ln: return content
            d = sub(lo, off)
            if d[0] == "int" and d[1] >= 0:
                if wl[0] == "int" and ln[0] == "int":
                    if d[1] + ln[1] <= wl[1]: return self.subc(content, d, ln)
                    if d[1] >= wl[1]: return self.subc(base, lo, ln)
                e = sub(add(d, ln), wl)
                if e[0] == "int" and e[1] <= 0: return self.subc(content, d, ln)
            # region entirely after / before the write
            e = sub(lo, add(off, wl))
            if e[0] == "int" and e[1] >= 0: return self.subc(base, lo, ln)
            e = sub(off, add(lo, ln))
            if e[0] == "int" and e[1] >= 0: return self.subc(base, lo, ln)
        if v[0] == "hvr":
            d = sub(v[2], add(lo, ln))
            if d[0] == "int" and d[1] >= 0: return self.subc(v[1], lo, ln)
        return ("sub", v, lo, ln)
    def proj(self, v, s):
        k = s[0]
        if k == "f":
            var, i = s[1], s[2]
            if v[0] == "agg":
                if i < len(v[4]) : return v[4][i]
                return UNDEF
            if v[0] == "upd":
                for st_, val in v[2]:
                    if st_ == s: return val
                return self.proj(v[1], s)
            if v in (UNDEF, MOVED): return v
            if v[0] == "constb" and i == 0:      # single-field constant with known bytes
                return ("bytes", v[3])
            return ("fld", v, var, i)
        if k == "i": return self.elem(v, s[1])
        if k == "ie":
            l = self.clen(v)
            return self.elem(v, sub(l, I(s[1])))
        if k == "sl": return self.subc(v, s[1], s[2])
        if k == "ss":
            frm, to, fe = s[1:]
            if fe: ln = sub(sub(self.clen(v), I(to)), I(frm))
            else: ln = I(to - frm)
            return self.subc(v, I(frm), ln)
        if k == "cast": return v
        raise Unsupported("proj " + k)
    def setp(self, v, path, val):
        if not path: return val
        s, rest = path[0], path[1:]
        k = s[0]
        if k == "f":
            new = self.setp(self.proj(v, s), rest, val)
            if v[0] == "agg" and s[2] < len(v[4]):
                f = list(v[4]); f[s[2]] = new
                return v[:4] + (tuple(f),) + v[5:]
            if v[0] == "upd":
                d = dict(v[2]); d[s] = new
                return ("upd", v[1], tuple(sorted(d.items(), key=repr)))
            return ("upd", v, ((s, new),))
        if k in ("i", "ie"):
            i = s[1] if k == "i" else sub(self.clen(v), I(s[1]))
            new = self.setp(self.proj(v, s), rest, val)
            if v[0] == "agg" and v[1] == "array" and i[0] == "int" and i[1] < len(v[4]):
                f = list(v[4]); f[i[1]] = new
                return v[:4] + (tuple(f),)
            if v[0] == "rep" and v[2][0] == "int" and i[0] == "int" and v[2][1] <= 64:
                return self.setp(("agg", "array", None, 0, (v[1],) * v[2][1]), path, val)
            return ("wr", v, i, I(1), ("one", new))
        if k == "sl":
            new = self.setp(self.subc(v, s[1], s[2]), rest, val)
            return self.wr(v, s[1], s[2], new)
        if k == "ss":
            frm, to, fe = s[1:]
            ln = sub(sub(self.clen(v), I(to)), I(frm)) if fe else I(to - frm)
            return self.setp(v, (("sl", I(frm), ln),) + rest, val)
        if k == "cast": return self.setp(v, rest, val)
        raise Unsupported("setp " + k)
    def wr(self, v, off, ln, content):
        if v[0] == "sub": pass
        if off == I(0) and ln == self.clen(v): return content
        if ln == I(0): return v
        if v[0] == "rep" and v[2][0] == "int" and off[0] == "int" and ln[0] == "int" and v[2][1] <= 64:
            v = ("agg", "array", None, 0, (v[1],) * v[2][1])
        if v[0] == "agg" and v[1] == "array" and off[0] == "int" and ln[0] == "int" and off[1] + ln[1] <= len(v[4]):
            f = list(v[4])
            for i in range(ln[1]): f[off[1] + i] = self.elem(content, I(i))
            return v[:4] + (tuple(f),)
        # nested: a write into the region of the last write at the same place
        if v[0] == "wr":
            _, base, o2, l2, c2 = v
            d = sub(off, o2)
            if d == I(0) and ln == l2: return ("wr", base, off, ln, content)
            if d[0] == "int" and d[1] >= 0 and l2[0] == "int" and ln[0] == "int" and d[1] + ln[1] <= l2[1] and l2[1] <= 64:
                arr = ("agg", "array", None, 0, tuple(self.elem(c2, I(i)) for i in range(l2[1])))
                return ("wr", base, o2, l2, self.wr(arr, d, ln, content))
            e = sub(sub(l2, d), ln)
            if d[0] == "int" and d[1] >= 0 and e[0] == "int" and e[1] >= 0:
                return ("wr", base, o2, l2, self.wr(c2, d, ln, content))
        return ("wr", v, off, ln, content)
    def write(self, st, cell, path, val, fr=None, line=0):
        if cell[0] == "ext" and fr is not None:
            st.trace.append(Ev("store", "", args=(self.deep_place(st, cell, path), self.deep(st, val)), fn=fr.fn.key, line=line,
                               file=fr.fn.file, stack=tuple(f.fn.key for f in st.frames)))
        if not path: st.mem[cell] = val
        else: st.mem[cell] = self.setp(self.load(st, cell), path, val)
    def deep_place(self, st, cell, path):
        if cell[0] == "ext":
            v = ("deref", cell[1])
        else: v = ("local", cell)
        for s in path:
            if s[0] == "f": v = ("fld", v, s[1], s[2])
            elif s[0] == "i": v = ("elem", v, s[1])
            elif s[0] == "sl": v = ("sub", v, s[1], s[2])
            else: v = (s[0], v) + s[1:]
        return v
    def deep(self, st, v, d=6):
        """snapshot of a value: references replaced by what they point at"""
        if d == 0: return v
        k = v[0]
        if k == "ref":
            cell, path = v[1], v[2]
            if cell[0] == "ext" and not path and cell not in st.mem: return cell[1]
            return ("&", self.deep(st, self.read(st, cell, path), d - 1))
        if k == "slice":
            c = self.subc(self.read(st, v[1], v[2]), v[3], v[4])
            return ("&", self.deep(st, c, d - 1))
        if k == "agg":
            return v[:4] + (tuple(self.deep(st, x, d - 1) for x in v[4]),) + v[5:]
        if k == "upd":
            return ("upd", self.deep(st, v[1], d - 1), tuple((s, self.deep(st, x, d - 1)) for s, x in v[2]))
        if k in ("boxed", "iter", "cat", "wr", "some"):
            return (k,) + tuple(self.deep(st, x, d - 1) if isinstance(x, tuple) and x and isinstance(x[0], str) else x for x in v[1:])
        return v

    # ------------------------------------------------------------ places/operands
    def place(self, st, fr, pl):
        cell = (fr.fid, pl[0]); path = ()
        var = None
        for e in pl[1]:
            k = e[0]
            if k == "*":
                v = self.read(st, cell, path)
                cell, path = self.deref(v)
                var = None
            elif k == "f":
                path = path + (("f", var or 0, e[1]),); var = None
            elif k == "d": var = e[1]
            elif k == "i":
                path = path + (("i", self.read(st, (fr.fid, e[1]), ())),)
            elif k == "ci":
                path = path + ((("ie", e[1]) if e[3] else ("i", I(e[1]))),)
            elif k == "ss": path = path + (("ss", e[1], e[2], e[3]),)
            elif k == "cast": pass
            else: raise Unsupported("place " + k)
        return cell, path
    def const(self, st, fr, c):
        crate = fr.fn.crate
        if "fn" in c:
            key, cid, selfs, g, ik, ia = self.callee(st, fr, ("k", c))
            return ("fn", key, cid, selfs, tuple(g), ik, tuple(ia))
        if "int" in c: return I(c["int"])
        if "str" in c:
            s = ("str", c["str"])
            return ("&", s)
        if "refbytes" in c: return ("&", ("bytes", tuple(c["refbytes"])))
        if "promoted" in c:
            cell = ("prom", fr.fn.key, c["promoted"], tuple(sorted(fr.subst.items())))
            if cell not in st.mem:
                st.mem[cell] = self.eval_promoted(fr, c["promoted"])
            v = st.mem[cell]
            if v[0] == "&" and v[1][0] in ("agg", "bytes", "rep"):
                # the constant is the reference, the cell what it refers to
                cell = cell + ("*",); st.mem[cell] = v[1]
            return ("ref", cell, ())
        if c.get("zst"):
            t = crate.types[c["ty"]]
            if t.k == "tuple": return UNIT
            if t.k == "adt": return ("agg", "adt", t.d["def"], 0, ())
            if t.k == "closure": return ("agg", "closure", t.d["def"], 0, ())
            return ("const", t.s, "")
        if "path" in c:
            cid = self.p.cid(c["path"])
            a = [self.tystr(crate, x, fr.subst) for x in c["args"] if x is not None]
            if "bytes" in c: return ("constb", cid, ", ".join(a), tuple(c["bytes"]))
            return ("const", cid, ", ".join(a))
        if "tyconst" in c:
            n = c["tyconst"]
            v = fr.subst.get(n, n)
            try: return I(int(v))
            except ValueError: return ("const", n, "")
        t = crate.types[c["ty"]]
        if "bytes" in c:
            a = self.p.adt(t.d.get("def")) if t.k == "adt" else None
            if t.k == "adt" and a and a["enum"] and all(not v["fields"] for v in a["variants"]):
                n = int.from_bytes(bytes(c["bytes"]), "little")
                for i, v in enumerate(a["variants"]):
                    if v["discr"] == n: return ("agg", "adt", t.d["def"], i, ())
            return ("constb", t.s, "", tuple(c["bytes"]))
        return ("const", t.s, "lit")
    def eval_promoted(self, fr, idx):
        """promoted bodies are straight-line"""
        pb = fr.fn.promoted[idx]
        st = State()
        f = Frame(fr.fn, 1, None, None, fr.subst, body=pb["bbs"])
        st.frames = [f]
        b = 0; mem_states = []
        for _ in range(50):
            bb = pb["bbs"][b]
            for s in bb["s"]: self.stmt(st, f, s)
            t = bb["t"]
            if t[0] == "return": break
            if t[0] == "goto": b = t[1]
            elif t[0] == "assert": b = t[4]
            elif t[0] == "call":
                fi = t[1][1] if t[1][0] == "k" else {}
                args = [self.operand(st, f, a) for a in t[2]]
                cid = self.p.cid(fi.get("fn", "?"))
                cell, path = self.place(st, f, t[3])
                self.write(st, cell, path, ("call", cid, "") + tuple(self.deep(st, a) for a in args))
                if t[4] is None: break
                b = t[4]
            elif t[0] == "drop": b = t[2]
            else: break
        v = self.read(st, (1, 0), ())
        return self.deep(st, v)
    def operand(self, st, fr, o):
        if o[0] == "k": return self.const(st, fr, o[1])
        if o[0] == "rt": return FALSE
        cell, path = self.place(st, fr, o[1])
        v = self.read(st, cell, path)
        if o[0] == "m" and v[0] != "int" and cell[0] != "ext":
            if not path: st.mem[cell] = MOVED
            elif all(s[0] == "f" for s in path): st.mem[cell] = self.setp(self.load(st, cell), path, MOVED)
        return v

    # ------------------------------------------------------------ rvalues
    WIDTH = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128, "i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64, "bool": 1}
    def binop(self, name, a, b, ty):
        w = self.WIDTH.get(ty)
        base = name
        for suf in ("WithOverflow", "Unchecked"):
            if base.endswith(suf): base = base[:-len(suf)]
        wo = name.endswith("WithOverflow")
        ovf = None
        if base in ("Add", "Sub", "Mul"):
            if is_int(a) and is_int(b):
                r = {"Add": a[1] + b[1], "Sub": a[1] - b[1], "Mul": a[1] * b[1]}[base]
                if w:
                    signed = ty.startswith("i")
                    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
                    ovf = I(0 if lo <= r <= hi else 1)
                    if ovf == TRUE: r &= (1 << w) - 1
                r = I(r)
            elif base == "Add": r = add(a, b)
            elif base == "Sub": r = sub(a, b)
            else:
                if is_int(a): r = mulc(b, a[1])
                elif is_int(b): r = mulc(a, b[1])
                else: r = op("Mul", a, b)
            if wo:
                if ovf is None: ovf = ("op", "ovf", base, a, b, ty)
                return tup(r, ovf)
            return r
        if base in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            if base == "Eq": return Eq(a, b) if ty != "bool" or not (is_int(a) or is_int(b)) else (self.beq(a, b))
            if base == "Ne": return Not(Eq(a, b) if ty != "bool" or not (is_int(a) or is_int(b)) else self.beq(a, b))
            if base == "Lt": return Lt(a, b)
            if base == "Gt": return Lt(b, a)
            if base == "Le": return Not(Lt(b, a))
            return Not(Lt(a, b))
        if base == "BitXor":
            if ty == "bool": 
                if is_int(a): return Not(b) if a[1] else b
                if is_int(b): return Not(a) if b[1] else a
            return xor(a, b)
        if ty == "bool" and base == "BitAnd": return And(a, b)
        if ty == "bool" and base == "BitOr": return Not(And(Not(a), Not(b)))
        if is_int(a) and is_int(b):
            x, y = a[1], b[1]
            m = (1 << w) - 1 if w else None
            if base == "BitAnd": return I(x & y)
            if base == "BitOr": return I(x | y)
            if base == "Shl":
                r = I((x << y) & m if m else x << y)
                return tup(r, FALSE) if wo else r
            if base == "Shr":
                r = I(x >> y)
                return tup(r, FALSE) if wo else r
            if base == "Div" and y: return I(x // y)
            if base == "Rem" and y: return I(x % y)
        if base == "BitOr":
            if a == I(0): return b
            if b == I(0): return a
            if a == b: return a
        if base == "BitAnd":
            if a == I(0) or b == I(0): return I(0)
            if a == b: return a
            # x & (2^k-1)  ==  x % 2^k
            for x, y in ((a, b), (b, a)):
                if is_int(y) and y[1] > 0 and (y[1] & (y[1] + 1)) == 0:
                    if w and y[1] == (1 << w) - 1: return x
                    return self.rem(x, y[1] + 1)
        if base in ("Shl", "Shr"):
            if b == I(0): r = a
            elif base == "Shr" and is_int(b) : r = self.div(a, 1 << b[1])
            elif base == "Shl" and is_int(b): r = op("shlw", a, b, ("ty", ty)) 
            else: r = op(base, a, b)
            return tup(r, Not(Lt(b, I(w or 64)))) if wo else r
        if base == "Rem" and is_int(b) and b[1] > 0: return self.rem(a, b[1])
        if base == "Div" and is_int(b) and b[1] > 0: return self.div(a, b[1])
        if base == "Cmp":
            return op("Cmp", a, b)
        if base == "Offset": return op("Offset", a, b)
        r = op(base, a, b)
        return r
    def beq(self, a, b):
        if is_int(a): a, b = b, a
        return a if b[1] == 1 else Not(a)
    def div(self, a, n):
        if n == 1: return a
        if is_int(a): return I(a[1] // n)
        if a[:2] == ("op", "Div") and is_int(a[3]): return self.div(a[2], a[3][1] * n)
        return op("Div", a, I(n))
    def rem(self, a, n):
        if n == 1: return I(0)
        c, d = lin(a)
        d2 = {k: v % n for k, v in d.items()}
        a2 = mklin(c % n, d2)
        if is_int(a2): return a2
        # nested rem
        if a2[0] == "op" and a2[1] == "Rem" and is_int(a2[3]) and a2[3][1] % n == 0: return self.rem(a2[2], n)
        return ("op", "Rem", a2, I(n))
    def cast(self, st, fr, kind, v, to_ty, from_ty):
        if "Unsize" in kind:
            ft, tt = from_ty, to_ty
            if ft.k == "ref" or ft.k == "ptr":
                c = fr.fn.crate
                it = c.types[ft.d["to"]]
                ot = c.types[tt.d["to"]] if tt.k in ("ref", "ptr") else None
                if it.k == "array" and ot is not None and ot.k == "slice":
                    n = it.d["len"]
                    if isinstance(n, int): ln = I(n)
                    else:
                        s = fr.subst.get(str(n), n)
                        try: ln = I(int(s))
                        except (TypeError, ValueError): ln = ("const", str(s), "")
                    cell, path = self.deref(v)
                    cur = self.read(st, cell, path)
                    cl = self.clen(cur)
                    if is_int(cl): ln = cl
                    elif cur[0] not in ("wr", "rep", "cat", "sub"):
                        st.facts[op("len", cur)] = ln[1] if is_int(ln) else None
                        st.facts.pop(op("len", cur), None)
                    return ("slice", cell, path, I(0), ln)
            return v
        if "IntToInt" in kind:
            fw, tw = self.WIDTH.get(from_ty.s), self.WIDTH.get(to_ty.s)
            if from_ty.k == "adt": fw = None
            if is_int(v):
                if tw and not to_ty.s.startswith("i"): return I(v[1] & ((1 << tw) - 1))
                return v
            if fw and tw and tw >= fw: 
                return v
            if tw and fw:
                return ("op", "trunc", v, I(tw))
            return v
        if "PtrToPtr" in kind or "PointerCoercion" in kind or "Transmute" in kind: return v
        return op("cast:" + to_ty.s, v)
    def rvalue(self, st, fr, r, destpl=None):
        k = r[0]
        if k == "use": return self.operand(st, fr, r[1])
        if k == "ref":
            cell, path = self.place(st, fr, r[2])
            # &*slice  => keep slice view
            if path and path[-1][0] == "sl": return ("slice", cell, path[:-1], path[-1][1], path[-1][2])
            if path and path[-1][0] == "ss":
                cur = self.read(st, cell, path[:-1])
                frm, to, fe = path[-1][1:]
                ln = sub(sub(self.clen(cur), I(to)), I(frm)) if fe else I(to - frm)
                p2 = path[:-1]
                if p2 and p2[-1][0] == "sl": return ("slice", cell, p2[:-1], add(p2[-1][1], I(frm)), ln)
                return ("slice", cell, p2, I(frm), ln)
            if cell[0] == "ext" and not path: return cell[1]
            return ("ref", cell, path)
        if k == "bin":
            a = self.operand(st, fr, r[2]); b = self.operand(st, fr, r[3])
            ty = self.tystr(fr.fn.crate, r[4], fr.subst)
            return self.binop(r[1], a, b, ty)
        if k == "un":
            a = self.operand(st, fr, r[2])
            if r[1] == "Not":
                if is_int(a) and a[1] in (0, 1): return Not(a)
                return Not(a)
            if r[1] == "PtrMetadata": return self.len_of(st, a)
            if r[1] == "Neg": return neg(a)
            return op(r[1], a)
        if k == "cast":
            v = self.operand(st, fr, r[2])
            c = fr.fn.crate
            return self.cast(st, fr, r[1], v, c.types[r[3]], c.types[r[4]])
        if k == "discr":
            cell, path = self.place(st, fr, r[1])
            v = self.read(st, cell, path)
            t = fr.fn.crate.types[r[2]]
            adt = t.d["def"] if t.k == "adt" else None
            return self.discr(v, adt)
        if k == "agg":
            ops = tuple(self.operand(st, fr, o) for o in r[4])
            if r[1] == "array": return ("agg", "array", None, 0, ops)
            if r[1] == "tuple": return ("agg", "tuple", None, 0, ops)
            if r[1] == "adt":
                active = r[5]
                if active >= 0: return ("agg", "adt", r[2], 0, tuple(UNDEF for _ in range(active)) + ops)
                return ("agg", "adt", r[2], r[3], ops)
            if r[1] in ("closure", "coroutine"):
                # remember the substitution of the creator: closure bodies share its generics
                return ("agg", r[1], r[2], 0, ops, tuple(sorted(fr.subst.items())))
            return ("agg", r[1], None, 0, ops)
        if k == "repeat":
            v = self.operand(st, fr, r[1]); n = r[2]
            if isinstance(n, int): return ("rep", v, I(n)) if n > 16 else ("agg", "array", None, 0, (v,) * n)
            s = fr.subst.get(str(n), n)
            try: return ("rep", v, I(int(s)))
            except (TypeError, ValueError): return ("rep", v, ("const", str(s), ""))
        if k == "tls": return ("tls", r[1])
        raise Unsupported("rvalue " + k)
    def discr(self, v, adt):
        if v[0] == "agg" and v[1] == "adt":
            a = self.p.adt(v[2])
            if a and a["enum"]: return I(a["variants"][v[3]]["discr"])
            return I(v[3])
        if v[0] == "upd":
            return self.discr(v[1], adt)
        if adt and v[0] == "constb":
            a = self.p.adt(adt)
            if a and a["enum"] and all(not x["fields"] for x in a["variants"]):
                return I(int.from_bytes(bytes(v[3]), "little"))
        return ("discr", v, adt)
    def len_of(self, st, v):
        if v[0] == "slice": return v[4]
        if v[0] == "&": return self.clen(v[1])
        cell, path = self.deref(v)
        return self.clen(self.read(st, cell, path))

    # ------------------------------------------------------------ facts
    def bits(self, t):
        return None
    def decide(self, st, t):
        if t[0] == "int": return t[1]
        f = st.facts.get(t)
        if f is not None: return f
        if t[0] == "not":
            d = self.decide(st, t[1])
            return None if d is None else 1 - d
        if t[0] == "lt":
            a, b = t[1], t[2]
            if numdom.entails(st.lin, numdom.ge(b, add(a, I(1)))): return 1
            if numdom.entails(st.lin, numdom.ge(a, b)): return 0
            return None
        if t[0] == "eq":
            a, b = t[1], t[2]
            if self.oracle is not None:
                r = self.oracle(st, t)
                if r is not None: return r
            fa = st.facts.get(a, a[1] if a[0] == "int" else None); fb = st.facts.get(b, b[1] if b[0] == "int" else None)
            if fa is not None and fb is not None: return 1 if fa == fb else 0
            if fb is not None and fb in st.neg.get(a, ()): return 0
            if fa is not None and fa in st.neg.get(b, ()): return 0
            if self.numeric(a) and self.numeric(b):
                if numdom.entails(st.lin, numdom.ge(a, add(b, I(1)))) or numdom.entails(st.lin, numdom.ge(b, add(a, I(1)))): return 0
                if numdom.entails(st.lin, numdom.ge(a, b)) and numdom.entails(st.lin, numdom.ge(b, a)): return 1
            return None
        if t[0] == "op" and t[1] == "And":
            a, b = self.decide(st, t[2]), self.decide(st, t[3])
            if a == 0 or b == 0: return 0
            if a == 1 and b == 1: return 1
            return None
        if t[0] == "op" and t[1] == "ovf":
            _, _, o, a, b, ty = t
            w = self.WIDTH.get(ty, 64)
            if o == "Sub" and not ty.startswith("i"):
                if numdom.entails(st.lin, numdom.ge(a, b)): return 0
                if numdom.entails(st.lin, numdom.ge(b, add(a, I(1)))): return 1
            if o == "Add" and not ty.startswith("i"):
                if numdom.entails(st.lin, numdom.ge(I((1 << w) - 1), add(a, b))): return 0
            return None
        if t[0] == "discr":
            return None
        return None
    def numeric(self, t):
        return t[0] in ("int", "lin", "elem", "lv") or (t[0] == "op" and t[1] not in ("And", "Or", "ovf")) or t[0] in ("fld", "arg", "deref", "ret", "out", "const", "call", "sym")
    def assume(self, st, t, val):
        """add the fact t == val; returns False if contradictory"""
        if t[0] == "int": return t[1] == val
        if t[0] == "not": return self.assume(st, t[1], 1 - val)
        st.facts[t] = val
        if t[0] == "lt":
            a, b = t[1], t[2]
            st.lin.append(numdom.ge(b, add(a, I(1))) if val else numdom.ge(a, b))
            return True
        if t[0] == "eq":
            a, b = t[1], t[2]
            if val:
                if self.numeric(a) and self.numeric(b):
                    st.lin.append(numdom.ge(a, b)); st.lin.append(numdom.ge(b, a))
                if b[0] == "int" and a[0] not in ("int",): st.facts[a] = b[1]
                if a[0] == "int" and b[0] not in ("int",): st.facts[b] = a[1]
            else:
                if b[0] == "int": st.neg[a] = st.neg.get(a, frozenset()) | {b[1]}; self._negnum(st, a, b[1])
                if a[0] == "int": st.neg[b] = st.neg.get(b, frozenset()) | {a[1]}; self._negnum(st, b, a[1])
            return True
        if t[0] == "op" and t[1] == "And" and val == 1:
            return self.assume(st, t[2], 1) and self.assume(st, t[3], 1)
        if t[0] == "op" and t[1] == "ovf" and val == 0:
            _, _, o, a, b, ty = t
            if o == "Sub" and not ty.startswith("i"): st.lin.append(numdom.ge(a, b))
        if self.numeric(t):
            st.lin.append(numdom.ge(t, I(val))); st.lin.append(numdom.ge(I(val), t))
        return True
    def _negnum(self, st, t, n):
        # t != n : usable when n is an end point of what is known
        if not self.numeric(t): return
        if n == 0 or numdom.entails(st.lin, numdom.ge(t, I(n))): st.lin.append(numdom.ge(t, I(n + 1)))
        elif numdom.entails(st.lin, numdom.ge(I(n), t)): st.lin.append(numdom.ge(I(n - 1), t))

    def variants(self, st, v, adt):
        """list of (state, variant_index, is_concrete) partitions for enum value v"""
        if v[0] == "agg": return [(st, v[3])]
        d = self.discr(v, adt)
        a = self.p.adt(adt)
        dv = self.decide(st, d)
        out = []
        vs = a["variants"]
        if dv is not None:
            return [(st, i) for i, x in enumerate(vs) if x["discr"] == dv]
        poss = [i for i, x in enumerate(vs) if x["discr"] not in st.neg.get(d, ())]
        for n, i in enumerate(poss):
            s2 = st.fork() if n < len(poss) - 1 else st
            if len(poss) > 1 and s2.frames: s2.frames[-1].nondet = True
            self.assume(s2, d, vs[i]["discr"])
            out.append((s2, i))
        return out

    # ------------------------------------------------------------ statements
    def stmt(self, st, fr, s):
        k = s[0]
        if k == "=":
            v = self.rvalue(st, fr, s[2])
            cell, path = self.place(st, fr, s[1])
            self.write(st, cell, path, v, fr, s[3])
        elif k == "dead":
            st.mem.pop((fr.fid, s[1]), None)
        elif k == "live":
            st.mem.pop((fr.fid, s[1]), None)
        elif k == "sd":
            cell, path = self.place(st, fr, s[1])
            v = self.read(st, cell, path)
            if v[0] == "agg": v = v[:3] + (s[2],) + v[4:]
            self.write(st, cell, path, v, fr, s[3])

    # ------------------------------------------------------------ run
    def call_frame(self, st, fn, args, dest, ret_bb, subst, onret=None):
        st.fidc += 1
        f = Frame(fn, st.fidc, dest, ret_bb, subst, onret)
        for i, a in enumerate(args): st.mem[(f.fid, i + 1)] = a
        st.frames.append(f)
        self.functions.add(fn.key)
        return f
    def run(self, fn, args=None, subst=None, st=None, prep=None):
        """all abstract paths through fn; async fns are run through their coroutine body"""
        if isinstance(fn, str): fn = self.p.fns[fn]
        st = st or State()
        if args is None: args = [("arg", i + 1) for i in range(fn.argc)]
        d = self.p.defs.get(fn.key, {})
        self.steps = 0; self.seen_heads = set()
        if prep: prep(st)
        isasync = d.get("async")
        onret = ("asyncroot",) if isasync else None
        self.call_frame(st, fn, args, None, None, subst or {}, onret)
        done = []
        work = [st]
        import time
        limit = time.time() + self.max_time
        while work:
            s = work.pop()
            while True:
                self.steps += 1
                if self.steps > self.max_steps or len(done) > self.max_paths or self.steps % 64 == 0 and time.time() > limit:
                    self.truncated = True
                    return done
                nxt = self.step(s)
                if nxt is None: continue       # s advanced in place
                if s.end is not None and not any(x is s for x in nxt): nxt = [s] + list(nxt)
                if not nxt: break
                live = []
                for x in nxt:
                    if x.end is not None: done.append(x)
                    else: live.append(x)
                if not live: break
                s = live[0]
                work.extend(live[1:])
        return done

    def finish(self, st, end, ret=None, note=None):
        st.end = end; st.ret = ret; st.note = note
        return [st]

    def goto(self, st, fr, tgt):
        fn = fr.fn
        if fr.body is fn.bbs:
            heads, edges = fn.loop_heads()
            if tgt in heads:
                if (fr.bb, tgt) in edges:
                    return self.loop_back(st, fr, tgt)
                fr.visits[tgt] = (0, dict(st.mem), len(st.trace))
                if self.merge and self.outermost(st, fr, tgt): fr.visits["f", tgt] = (dict(st.facts), dict(st.neg), list(st.lin))
                fr.visits["m", tgt] = fr.nd; fr.visits["e", tgt] = st.ctr
        fr.bb = tgt
        return None
    def outermost(self, st, fr, head):
        for f in st.frames:
            for h, body in f.fn.loop_bodies().items():
                if f is fr:
                    if h != head and head in body: return False
                elif f.bb in body: return False
        return True
    def loop_back(self, st, fr, head):
        cnt, snap, tr = fr.visits.get(head, (0, {}, 0))
        if (fr.nd == fr.visits.get(("m", head), 0) or (self.unroll_nondet(fr.fn.key) if callable(self.unroll_nondet) else self.unroll_nondet)) and cnt < self.unroll and cnt >= 0:
            # nothing undecided happened since the head: unroll concretely
            fr.visits[head] = (cnt + 1, dict(st.mem), tr)
            fr.visits["m", head] = fr.nd
            fr.bb = head
            return None
        again = False
        if cnt <= -1:
            if self.covered(st, fr, head, snap):
                st.note = ("loop", fr.fn.key, head)
                return self.finish(st, "loop", note=st.note)
            # this iteration changes more than the first one did: widen again and go round once more
            if cnt < -8: raise Unsupported("loop does not stabilise: %s bb%s" % (fr.fn.key, head))
            again = True
        n = st.fresh()
        done = None
        if self.merge and ("f", head) in fr.visits:
            # states that come round the first time go on as one: what this iteration learned is forgotten
            # (the iteration itself is reported as a path of its own, with everything known about it)
            done = st.fork()
            self.finish(done, "loop", note=("iteration", fr.fn.key, head))
            f0, n0, l0 = fr.visits["f", head]
            st.facts = dict(f0); st.neg = dict(n0); st.lin = list(l0)
        sig = []; nl = len(st.lin); self.shared = {}
        self.wlin = done.lin if done is not None else st.lin        # what is known about the values at this back edge
        live = fr.fn.live_in(head); self.entry = fr.visits.get(("e", head), 0)
        for cell, v in sorted(st.mem.items(), key=lambda x: repr(x[0])) if done is not None else list(st.mem.items()):
            o = snap.get(cell)
            if o is None:
                if done is not None and cell[0] == "heap":     # made in this iteration: no longer reachable
                    del st.mem[cell]; continue
                if cell[0] in ("ext", "heap"): o = self.load_snap(snap, cell)
                else:
                    continue
            if cell[0] == fr.fid and len(cell) == 2 and cell[1] not in live:
                continue                # never read again before it is assigned
            if again: o = self.freshen(o, n, fr.fn.key, head)
            if o != v:
                st.mem[cell] = self.widen(st, o, v, ("lv", n, fr.fn.key, head, cell))
                if done is not None: sig.append((cell, renum(st.mem[cell], n)))
        if done is not None:
            base = len(fr.visits["f", head][2])
            k = (tuple(f.fid for f in st.frames), fr.fn.key, head, repr(sig), repr([renum(x, n) for x in st.lin[base:]]))
            if k in self.seen_heads: return [done]
            self.seen_heads.add(k)
        fr.visits[head] = (-1 if not again else cnt - 1, dict(st.mem), tr)
        fr.visits["c", head] = st.lin[nl:]; fr.visits["n", head] = n
        fr.visits["m", head] = fr.nd
        st.trace.append(Ev("widen", fn=fr.fn.key, line=head, n=n))
        fr.bb = head
        if done is not None: return [done, st]
        return None
    def freshen(self, t, n, fn, head):
        """loop terms of this head, renamed: what the last iteration learned about them no longer holds"""
        if not isinstance(t, tuple): return t
        if len(t) > 3 and t[0] == "lv" and t[2:4] == (fn, head): return ("lv", n) + t[2:]
        if len(t) == 3 and t[0] == "hv": return ("hv", self.freshen(t[1], n, fn, head), n)
        if len(t) == 4 and t[0] == "hvr": return ("hvr", self.freshen(t[1], n, fn, head), t[2], n)
        return tuple(self.freshen(x, n, fn, head) for x in t)
    def covered(self, st, fr, head, snap):
        """is the state at this back edge an instance of the widened state at the loop head?"""
        sub_ = {}; self.deferred = []; live = fr.fn.live_in(head)
        self.le_now = lambda a, b: numdom.entails(st.lin, numdom.ge(b, a))
        for cell, v in st.mem.items():
            o = snap.get(cell)
            if o is None:
                # memory behind a value that was made in this iteration belongs to this iteration only
                n0 = fr.visits.get(("n", head), 0)
                if cell[0] == "ext" and not mentions(cell[1], lambda t: t[0] in ("ret", "out") and isinstance(t[1], int) and t[1] > n0 or t[0] == "item" and isinstance(t[2], int) and t[2] > n0): o = self.load_snap(snap, cell)
                else: continue
            if cell[0] == fr.fid and len(cell) == 2 and cell[1] not in live: continue
            if not self.covers(o, v, fr.fn.key, head, sub_): return False
        for o, v in self.deferred:
            c, d = lin(o); t = I(c)
            for a, k in d.items(): t = add(t, mulc(self.instance(a, sub_), k))
            if t != v and not (numdom.entails(st.lin, numdom.ge(t, v)) and numdom.entails(st.lin, numdom.ge(v, t))): return False
        for con in fr.visits.get(("c", head), ()):
            t = I(con[0])
            for a, k in con[1].items():
                t = add(t, mulc(self.instance(a, sub_), k))
            if not numdom.entails(st.lin, lin(t)): return False
        st.loops["step"] = sub_          # what the loop terms become in the next iteration
        return True
    def instance(self, t, sub_):
        if t in sub_: return sub_[t]
        return t
    def covers(self, o, v, fn, head, sub_):
        o, v = self.as_view(o, v), self.as_view(v, o)
        if o == v:
            for t in subterms(o):
                if t[0] == "lv" and t[2:4] == (fn, head):
                    if sub_.setdefault(t, t) != t: return False
            return True
        if o[0] == "lv" and o[2:4] == (fn, head):
            if o in sub_ and sub_[o] != v: return False
            sub_[o] = v
            return True
        if o[0] == "lin":
            # a known combination of loop terms (the length of a widened view): must still be that combination
            self.deferred.append((o, v))
            return True
        if v in (UNDEF, MOVED): return True           # dead from here on (borrow checker)
        if o[0] == "agg" and v[0] == "agg" and o[1:4] == v[1:4] and len(o[4]) == len(v[4]) and o[5:] == v[5:]:
            return all(self.covers(a, b, fn, head, sub_) for a, b in zip(o[4], v[4]))
        if o[0] == "slice" and v[0] == "slice" and o[1:3] == v[1:3]:
            return self.covers(o[3], v[3], fn, head, sub_) and self.covers(o[4], v[4], fn, head, sub_)
        if o[0] == "upd" and v[0] == "upd" and o[1] == v[1]:
            return all(self.covers(self.proj(o, s), self.proj(v, s), fn, head, sub_) for s in {s for s, _ in o[2]} | {s for s, _ in v[2]})
        if o[0] == "hvr":
            # unknown from o[2] on, and unchanged before it
            b = v
            while b != o and b[0] in ("wr", "hvr"):
                off = b[2]
                if b[0] == "hvr" and b[1] == o[1] and b[2] == o[2]: break
                if not self.le_now(o[2], off): return False
                b = b[1]
            return b == o or b == o[1] or b[0] == "hvr" and b[1] == o[1]
        if o[0] == "hv":
            b = v
            while b[0] in ("wr", "hv", "hvr"): b = b[1]
            b1 = o[1]
            while b1[0] in ("wr", "hv", "hvr"): b1 = b1[1]
            return b == b1 or self.clen(v) == self.clen(o)
        return False
    def load_snap(self, snap, cell):
        v = snap.get(cell)
        if v is None:
            if cell[0] == "ext":
                t = cell[1]
                return t[1] if t[0] == "&" else ("deref", t)
            return UNDEF
        return v
    def widen(self, st, o, v, name):
        if o == v: return v
        o, v = self.as_view(o, v), self.as_view(v, o)
        if o[0] == "agg" and v[0] == "agg" and o[1:4] == v[1:4] and len(o[4]) == len(v[4]):
            return v[:4] + (tuple(self.widen(st, a, b, name + (i,)) for i, (a, b) in enumerate(zip(o[4], v[4]))),) + v[5:]
        if o[0] == "slice" and v[0] == "slice" and o[1:3] == v[1:3]:
            lo = self.widen(st, o[3], v[3], name + ("lo",))
            # views of one buffer: keep "end" invariant when it did not move
            if add(o[3], o[4]) == add(v[3], v[4]): ln = sub(add(o[3], o[4]), lo); st.lin.append(numdom.ge(ln, I(0)))
            else: ln = self.widen(st, o[4], v[4], name + ("len",))
            return ("slice", v[1], v[2], lo, ln)
        if o[0] == "upd" and v[0] == "upd" and o[1] == v[1]:
            ks = {s for s, _ in o[2]} | {s for s, _ in v[2]}
            return ("upd", v[1], tuple(sorted(((s, self.widen(st, self.proj(o, s), self.proj(v, s), name + (s,))) for s in ks), key=repr)))
        if v[0] == "upd" and v[1] == o:
            return ("upd", o, tuple((s, self.widen(st, self.proj(o, s), x, name + (s,))) for s, x in v[2]))
        if o in (UNDEF, MOVED) or v in (UNDEF, MOVED): return v if v in (UNDEF, MOVED) else ("lv",) + name[1:]
        if v[0] in ("wr", "hvr"):
            # writes on top of the old contents, none before a fixed place: the part before it stays known
            offs = []; b = v
            while b != o and b[0] in ("wr", "hvr") and not (o[0] == "hvr" and b[0] == "hvr" and b[1] == o[1]):
                offs.append(b[2]); b = b[1]
            base = o
            if o[0] == "hvr": offs.append(o[2]); base = o[1]
            if (b == o or o[0] == "hvr" and b[0] == "hvr" and b[1] == o[1]) and offs:
                for m in sorted(set(offs), key=lambda t: (t[0] != "int", repr(t))):
                    if not mentions(m, lambda t: t[0] == "lv" and t[2:4] == name[2:4]) and all(numdom.entails(st.lin, numdom.ge(x, m)) for x in offs):
                        return ("hvr", base, m, name[1])
        if v[0] == "wr" or o[0] == "wr":
            b1, b2 = o, v
            while b2[0] in ("wr", "hvr"): b2 = b2[1]
            while b1[0] in ("wr", "hvr"): b1 = b1[1]
            if b1 == b2: return ("hv", b1, name[1])      # same buffer, unknown contents
        if (v[0] in ("wr", "hv", "hvr") or v[0] == "mod" and v[3][0] == "sub") and self.clen(o) == self.clen(v):
            return ("hv", o[1] if o[0] == "hv" else o, name[1])
        lv = name
        st.loops[lv] = v                 # its value when the loop is first cut
        d = sub(v, o) if self.isnum(o) and self.isnum(v) else None
        if d is not None:
            # counters that move together keep their distance (checked again at every back edge)
            for o1, lv1 in self.shared.setdefault(d, []):
                k = sub(o, o1)
                if k[0] == "int": return add(lv1, k)
            self.shared[d].append((o, lv))
        if d is not None and d[0] == "int":
            if d[1] > 0: st.lin.append(numdom.ge(lv, o))
            elif d[1] < 0: st.lin.append(numdom.ge(o, lv))
        elif d is not None and numdom.entails(self.wlin, numdom.ge(v, o)):
            st.lin.append(numdom.ge(lv, o))
        if d is not None:
            # lengths it stays within (candidates; checked again at every back edge)
            for b in self.lengths(st):
                if numdom.entails(self.wlin, numdom.ge(b, v)) and (self.wlin is not st.lin or numdom.entails(st.lin, numdom.ge(b, o))): st.lin.append(numdom.ge(b, lv))
        return lv
    def lengths(self, st):
        out = set()
        for c, d in self.wlin:
            for a in d:
                if a[:2] == ("op", "len") and not mentions(a, lambda t: t[0] in ("lv", "hv", "hvr")): out.add(a)
        for v in st.mem.values():
            for t in ([v] + list(v[4])) if v[0] == "agg" and v[1] in ("closure", "coroutine", "tuple") else [v]:
                if isinstance(t, tuple) and t and t[0] == "slice" and t[4][0] not in ("int",) and not mentions(t[4], lambda t: t[0] in ("lv", "hv", "hvr")): out.add(t[4])
        # only those that exist since before the loop: a later one is another value in the next iteration
        new = lambda t: t[0] in ("ret", "out") and isinstance(t[1], int) and t[1] > self.entry or t[0] in ("item", "sym") and len(t) > 2 and isinstance(t[2], int) and t[2] > self.entry
        return sorted((t for t in out if not mentions(t, new)), key=repr)[:8]
    def as_view(self, o, like):
        """a plain reference to the buffer that `like` is a view of, as a view"""
        if o[0] == "slice" or like[0] != "slice": return o
        if like[2] == () and like[1] == ("ext", o): return ("slice", like[1], (), I(0), self.clen(("deref", o)))
        return o
    def isnum(self, t): return t[0] in ("int", "lin") or self.numeric(t)

    def step(self, st):
        fr = st.frames[-1]
        bb = fr.body[fr.bb]
        for s in bb["s"]: self.stmt(st, fr, s)
        t = bb["t"]; k = t[0]
        if k == "goto": return self.goto(st, fr, t[1])
        if k == "return": return self.do_return(st, fr)
        if k == "switch": return self.do_switch(st, fr, t)
        if k == "call": return self.do_call(st, fr, t, bb)
        if k == "drop": return self.do_drop(st, fr, t, bb)
        if k == "assert": return self.do_assert(st, fr, t, bb)
        if k == "yield":
            return self.finish(st, "pending")
        if k == "unreachable": return self.finish(st, "unreachable")
        if k in ("resume", "cdrop"): return self.finish(st, k)
        if k == "tailcall": raise Unsupported("tailcall")
        return self.finish(st, "stuck", note=k)

    def do_return(self, st, fr):
        v = self.read(st, (fr.fid, 0), ())
        st.frames.pop()
        onret = fr.onret
        # refs into the dying frame stay readable (cells are kept)
        if onret is not None:
            k = onret[0]
            if k == "asyncroot":
                if v[0] == "agg" and v[1] == "coroutine" and v[2] in self.p.fns:
                    sub_ = dict(v[5]) if len(v) > 5 else fr.subst
                    self.call_frame(st, self.p.fns[v[2]], [v], None, None, sub_, None)
                    return None
                return self.finish(st, "return", v)
            if k == "poll": v = ready(v)
            elif k == "wrap":          # python callback
                r = onret[1](self, st, v)
                if r is None: pass
                else: v = r
            elif k == "cont":          # continuation producing [(state, value)]
                outs = onret[1](self, st, v)
                res = []
                for s2, val in outs:
                    if s2.end is not None: res.append(s2); continue
                    if val is None: res.append(s2); continue   # callback pushed a frame itself
                    r = self.deliver(s2, fr.dest, fr.ret_bb, val)
                    res.extend(r if r else [s2])
                return res
        if not st.frames and fr.dest is None:
            return self.finish(st, "return", v)
        return self.deliver(st, fr.dest, fr.ret_bb, v)
    def deliver(self, st, dest, ret_bb, v):
        if not st.frames and dest is None:
            return self.finish(st, "return", v)
        cal = st.frames[-1]
        if dest is not None:
            self.write(st, dest[0], dest[1], v, cal if dest[0][0] == "ext" else None)
        if ret_bb is None: return self.finish(st, "diverge")
        return self.goto(st, cal, ret_bb)

    def do_switch(self, st, fr, t):
        v = self.operand(st, fr, t[1])
        ty = fr.fn.crate.types[t[4]]
        isbool = ty.s == "bool"
        d = self.decide(st, v)
        if d is not None:
            for val, tgt in t[2]:
                if val == d: return self.goto(st, fr, tgt)
            return self.goto(st, fr, t[3])
        fr.nondet = True
        outs = []
        negset = st.neg.get(v, frozenset())
        domain = None
        if isbool: domain = {0, 1}
        elif v[0] == "discr" and v[2]:
            a = self.p.adt(v[2])
            if a and a["enum"]: domain = {x["discr"] for x in a["variants"]}
        if v[0] == "not": # canonical polarity
            pass
        listed = set()
        cands = []
        for val, tgt in t[2]:
            listed.add(val)
            if val in negset: continue
            if domain is not None and val not in domain: continue
            cands.append((val, tgt))
        oth = None
        if domain is not None:
            rest = domain - listed - set(negset)
            if len(rest) == 1: cands.append((next(iter(rest)), t[3]))
            elif rest: oth = t[3]
        else: oth = t[3]
        for val, tgt in cands:
            s2 = st.fork(); f2 = s2.frames[-1]
            for f in s2.frames: f.nondet = True
            if self.assume(s2, v, val) is False: continue
            if self.contradiction(s2, v, val): continue
            r = self.goto(s2, f2, tgt)
            outs.extend(r if r else [s2])
        if oth is not None:
            s2 = st.fork(); f2 = s2.frames[-1]
            for f in s2.frames: f.nondet = True
            s2.neg[v] = negset | listed
            for n in sorted(listed): self._negnum(s2, v, n)
            r = self.goto(s2, f2, oth)
            outs.extend(r if r else [s2])
        return outs
    def contradiction(self, st, v, val):
        if v[0] in ("discr",): return False
        if v[0] in ("elem",) : return False
        if not st.lin: return False
        c = st.lin[-1]
        return numdom.infeasible(numdom.relevant(st.lin, c))

    def do_drop(self, st, fr, t, bb):
        cell, path = self.place(st, fr, t[1])
        v = self.read(st, cell, path)
        if v not in (UNDEF, MOVED) and v[0] not in ("int",):
            ty = self.tystr(fr.fn.crate, t[3], fr.subst)
            st.trace.append(Ev("drop", ty, args=(self.deep(st, v),), fn=fr.fn.key, line=bb["at"][1], file=bb["at"][0],
                               stack=tuple(f.fn.key for f in st.frames)))
        if cell[0] != "ext":
            if not path: st.mem[cell] = MOVED
        return self.goto(st, fr, t[2])

    def do_assert(self, st, fr, t, bb):
        c = self.operand(st, fr, t[1])
        exp = 1 if t[2] else 0
        d = self.decide(st, c)
        self.obligations += 1
        if d is not None:
            if d == exp: return self.goto(st, fr, t[4])
            st.trace.append(Ev("panic", t[3][0], args=(c,), fn=fr.fn.key, line=bb["at"][1], file=bb["at"][0]))
            return self.finish(st, "panic", note=t[3][0])
        st.trace.append(Ev("maypanic", t[3][0] + (":" + t[3][1] if t[3][0] == "overflow" else ""), args=(c,), fn=fr.fn.key, line=bb["at"][1], file=bb["at"][0],
                           x=exp, stack=tuple(f.fn.key for f in st.frames)))
        self.assume(st, c, exp)
        return self.goto(st, fr, t[4])
    def require(self, st, call, cond, what):
        """panic obligation raised by a library model; continue assuming it holds"""
        self.obligations += 1
        d = self.decide(st, cond)
        if d == 1: return True
        st.trace.append(Ev("maypanic", what, args=(cond,), fn=call.fr.fn.key, line=call.line, file=call.file, x=1,
                           stack=tuple(f.fn.key for f in st.frames)))
        if d == 0:
            self.finish(st, "panic", note=what)
            return False
        self.assume(st, cond, 1)
        return True

    # ------------------------------------------------------------ calls
    def callee(self, st, fr, fo):
        """(key, cid, selfstr, gargs strings, impl key, impl args) for a callee operand"""
        crate = fr.fn.crate
        if fo[0] != "k" or "fn" not in fo[1]:
            return None
        c = fo[1]
        key = c["fn"]
        cid = self.p.cid(key)
        g = [self.tystr(crate, x, fr.subst) for x in c["args"] if x is not None]
        selfs = self.tystr(crate, c["self"], fr.subst) if "self" in c else ""
        ik = c.get("res"); ia = c.get("rargs")
        if ik:
            iargs = [self.tystr(crate, x, fr.subst) if x is not None else None for x in ia]
        else:
            iargs = [self.tystr(crate, x, fr.subst) if x is not None else None for x in c["args"]]
            ik = key
            d = self.p.defs.get(key)
            if d and "trait" in d and selfs:
                r = self.reresolve(d["trait"], d["name"], selfs, g)
                if r: ik, iargs = r
        return key, cid, selfs, g, ik, iargs
    def reresolve(self, trait, name, selfs, g):
        """devirtualise a trait call whose Self became concrete by substitution"""
        if self.impl_index is None:
            self.impl_index = {}
            for c in self.p.crates.values():
                for i in c.impls:
                    for it in i["items"]:
                        d = self.p.defs.get(it)
                        if d: self.impl_index.setdefault((i["trait"], d.get("name")), []).append((it, c.types[i["self"]], c, d))
        cands = []
        base = re.split(r"[<]", selfs)[0]
        for it, t, c, d in self.impl_index.get((trait, name), ()):
            if it not in self.p.fns: continue
            ts = self.tystr(c, d["self_ty"], {})
            if t.k == "adt" and t.d["def"] == base or ts == selfs:
                if len(g) > 1 and "trait_args" in d:
                    ta = [self.tystr(c, x, {}) for x in d["trait_args"] if x is not None]
                    if len(ta) > 1 and len(g) > 1 and ta[1:] != g[1:len(ta)]: continue
                cands.append((it, t, c, d))
        if len(cands) == 1:
            it, t, c, d = cands[0]
            gen = d.get("generics", [])
            # crude: bind the impl's type parameters positionally from Self's arguments
            m = {}
            if t.k == "adt":
                sa = split_args(selfs)
                ta = [x for x in t.d["args"] if x is not None]
                for x, y in zip(ta, sa):
                    if isinstance(x, int):
                        tt = c.types[x]
                        if tt.k == "param": m[tt.d["name"]] = y
            rest = [x for x in gen if x not in m and not x.startswith("'")]
            extra = g[1:][-len(rest):] if rest and len(g) > len(rest) else []
            for x, y in zip(rest, extra): m[x] = y
            return it, [m.get(n, n) for n in gen]
        return None

    def do_call(self, st, fr, t, bb):
        self.callsites += 1
        info = self.callee(st, fr, t[1])
        args = [self.operand(st, fr, a) for a in t[2]]
        destp = self.place(st, fr, t[3])
        c = Call(); c.st = st; c.fr = fr; c.args = args; c.line = bb["at"][1]; c.file = bb["at"][0]; c.tgt = t[4]
        c.dest = destp
        pl = t[3]
        c.dest_ty = (fr.fn.crate, fr.fn.locals[pl[0]] if not pl[1] else None, fr.subst)
        if info is None:
            fv = self.operand(st, fr, t[1])
            fv = self.deref_fn(st, fv)
            if fv[0] == "fn":
                # function item passed as a value
                return self.call_value(st, c, fv, args, destp, t[4])
            c.key = c.cid = "?"; c.self = ""; c.gargs = (); c.ikey = None; c.iargs = ()
            return self.event_call(st, c, destp, t[4], callee_val=fv)
        c.key, c.cid, c.self, c.gargs, c.ikey, c.iargs = info
        return self.dispatch(st, c, destp, t[4])
    def deref_fn(self, st, v):
        return v
    def is_opaque(self, cid, ikey):
        for o in self.opaque:
            if cid == o or cid.endswith("::" + o): return True
        return False
    def dispatch(self, st, c, destp, tgt):
        if self.is_opaque(c.cid, c.ikey):
            return self.event_call(st, c, destp, tgt)
        m = self.models.get(c.cid)
        if m is None and c.ikey and c.ikey != c.key: m = self.models.get(self.p.cid(c.ikey)) if self.p.cid(c.ikey) != c.cid else None
        if m is not None:
            r = m(self, st, c, *c.args)
            if r is not NotImplemented:
                return self.model_result(st, c, r, destp, tgt)
        # closure / fn calls through Fn* traits
        if c.cid.startswith("core::ops::function::Fn"):
            r = self.call_closure(st, c.args[0], self.untuple(c.args[1]), destp, tgt)
            if r is not NotImplemented: return r
        if c.cid == "core::future::future::Future::poll":
            r = self.do_poll(st, c, destp, tgt)
            if r is not NotImplemented: return r
        fn = self.p.fns.get(c.ikey)
        if fn is not None and not self.noinline(c.ikey, c.cid) and sum(1 for f in st.frames if f.fn.key == c.ikey) < 2 and len(st.frames) < self.max_depth:
            subst = self.subst_for(c.ikey, c.iargs)
            self.call_frame(st, fn, c.args, destp, tgt, subst)
            return None
        if c.cid in self.pure:
            v = ("call", c.cid, c.self) + tuple(self.deep(st, a) for a in c.args)
            return self.deliver(st, destp, tgt, v)
        return self.event_call(st, c, destp, tgt)
    def subst_for(self, key, iargs):
        gen = self.p.defs.get(key, {}).get("generics", [])
        s = {}
        for n, v in zip(gen, iargs):
            if v is not None and v != n: s[n] = v
        return s
    def untuple(self, v):
        if v[0] == "agg" and v[1] == "tuple": return list(v[4])
        return [v]
    def model_result(self, st, c, r, destp, tgt):
        """models return a value, or a list of (state, value), or 'pushed'"""
        if r is None: return self.deliver(st, destp, tgt, UNIT)
        if hasattr(r, "res"): return r.res
        if isinstance(r, tuple): return self.deliver(st, destp, tgt, r)
        if r == "pushed": return None
        outs = []
        for s2, v in r:
            if s2.end is not None or v is None: outs.append(s2); continue
            if len(r) > 1 and s2.frames: s2.frames[-1].nondet = True
            x = self.deliver(s2, destp, tgt, v)
            outs.extend(x if x else [s2])
        return outs
    def call_closure(self, st, clo, args, destp, tgt, onret=None):
        """inline a closure (or fn item) value"""
        by_ref = None
        v = clo
        if v[0] == "ref":
            by_ref = v
            v = self.read(st, v[1], v[2])
            if v[0] == "ref":
                by_ref = v; v = self.read(st, v[1], v[2])
        if v[0] == "&": v = v[1]
        if v[0] == "agg" and v[1] == "closure" and v[2] in self.p.fns:
            fn = self.p.fns[v[2]]
            if len(st.frames) >= self.max_depth or sum(1 for f in st.frames if f.fn.key == v[2]) >= 2: return NotImplemented
            t1 = fn.crate.types[fn.locals[1]]
            if t1.k == "ref":
                if by_ref is None:
                    cell = ("heap", st.fresh()); st.mem[cell] = v
                    by_ref = ("ref", cell, ())
                a0 = by_ref
            else: a0 = v
            sub_ = dict(v[5]) if len(v) > 5 else {}
            self.call_frame(st, fn, [a0] + list(args), destp, tgt, sub_, onret)
            return None
        if v[0] == "fn":
            return self.call_fnval(st, v, args, destp, tgt, onret)
        return NotImplemented
    def call_fnval(self, st, v, args, destp, tgt, onret=None):
        key = v[1]
        fn = self.p.fns.get(key)
        d = self.p.defs.get(key)
        # enum / struct constructor used as a function
        if d and d["kind"].startswith("Ctor"):
            ctor = ctor_of(self.p, key)
            if ctor:
                val = ("agg", "adt", ctor[0], ctor[1], tuple(args))
                if onret: 
                    fr = st.frames[-1]
                    self_f = Frame(fr.fn, -1, destp, tgt, {}, onret)
                    return self.apply_onret(st, onret, val, destp, tgt)
                return self.deliver(st, destp, tgt, val)
        cid = self.p.cid(key)
        selfs, g, ik, ia = v[3:7] if len(v) > 6 else ("", (), key, ())
        if not self.is_opaque(cid, ik):
            m = self.models.get(cid)
            if m is None and ik and ik != key and self.p.cid(ik) != cid: m = self.models.get(self.p.cid(ik))
            if m is not None:
                c = Call(); c.st = st; c.fr = st.frames[-1]; c.args = list(args); c.line = 0; c.file = ""; c.tgt = tgt
                c.dest = destp; c.dest_ty = (c.fr.fn.crate, None, c.fr.subst)
                c.key, c.cid, c.self, c.gargs, c.ikey, c.iargs = key, cid, selfs, list(g), ik, list(ia)
                r = m(self, st, c, *args)
                if r is not NotImplemented:
                    if onret is None: return self.model_result(st, c, r, destp, tgt)
                    if r is None: return self.apply_onret(st, onret, UNIT, destp, tgt)
                    if isinstance(r, tuple): return self.apply_onret(st, onret, r, destp, tgt)
                    if isinstance(r, list):
                        res = []
                        for s2, val in r:
                            if s2.end is not None or val is None: res.append(s2); continue
                            if len(r) > 1 and s2.frames: s2.frames[-1].nondet = True
                            x = self.apply_onret(s2, onret, val, destp, tgt)
                            res.extend(x if x else [s2])
                        return res
                    raise Unsupported("function value " + cid)
            fn = self.p.fns.get(ik) or fn
            if fn is not None and sum(1 for f in st.frames if f.fn.key == fn.key) < 2 and len(st.frames) < self.max_depth and not self.noinline(fn.key, cid):
                self.call_frame(st, fn, list(args), destp, tgt, self.subst_for(fn.key, ia) if ia else {}, onret)
                return None
        val = ("call", cid, selfs) + tuple(self.deep(st, a) for a in args)
        if onret: return self.apply_onret(st, onret, val, destp, tgt)
        return self.deliver(st, destp, tgt, val)
    def apply_onret(self, st, onret, v, destp, tgt):
        if onret[0] == "wrap":
            r = onret[1](self, st, v)
            return self.deliver(st, destp, tgt, v if r is None else r)
        if onret[0] == "cont":
            res = []
            for s2, val in onret[1](self, st, v):
                if s2.end is not None or val is None: res.append(s2); continue
                r = self.deliver(s2, destp, tgt, val)
                res.extend(r if r else [s2])
            return res
        if onret[0] == "poll": return self.deliver(st, destp, tgt, ready(v))
        raise Unsupported("onret")
    def call_value(self, st, c, fv, args, destp, tgt):
        r = self.call_fnval(st, fv, args, destp, tgt)
        return r

    def apply_fn(self, st, clo, args, cont, c, destp, tgt):
        """call closure value inside a model; cont(engine, st, value) -> [(state, value)]"""
        r = self.call_closure(st, clo, args, destp, tgt, ("cont", cont))
        if r is NotImplemented:
            n = st.fresh()
            res = ("ret", n, "closure")
            st.trace.append(Ev("call", "closure", args=(self.deep(st, clo),) + tuple(self.deep(st, a) for a in args), res=res, n=n, fn=c.fr.fn.key, line=c.line, file=c.file))
            return self.apply_onret(st, ("cont", cont), res, destp, tgt)
        return r

    def event_call(self, st, c, destp, tgt, callee_val=None):
        n = st.fresh()
        res = ("ret", n, c.cid)
        dargs = tuple(self.deep(st, a) for a in c.args)
        ev = Ev("call", c.cid, c.self, tuple(c.gargs), dargs, res, c.fr.fn.key, c.line, n, stack=tuple(f.fn.key for f in st.frames), file=c.file)
        ev.raw = tuple(c.args)
        st.trace.append(ev)
        for k, h in self.hooks.items():
            if c.cid.endswith(k): h(self, st, ev, c)
        # havoc what is reachable through &mut arguments
        self.havoc_args(st, c, n)
        if tgt is None: return self.finish(st, "panic" if "panic" in c.cid or "unwrap" in c.cid or "fail" in c.cid else "diverge", note=c.cid)
        return self.deliver(st, destp, tgt, ev.res)
    def havoc_args(self, st, c, n):
        ms = self.mut_args(c)
        # iterators over &mut elements that are handed to code that is not followed
        if any(w in g for g in (c.self,) + tuple(str(x) for x in c.gargs) for w in ("IterMut", "ChunksMut", "ChunksExactMut", "SplitMut", "RChunksMut")):
            for i, a in enumerate(c.args):
                for t in [t for t in subterms(a) if t[0] == "slice"] if a[0] == "agg" and a[1] == "iter" else []:
                    old = self.read(st, t[1], t[2])
                    self.write(st, t[1], t[2], self.wr(old, t[3], t[4], ("mod", n, i, ("sub", ("any",), t[3], t[4]))))
        for i, a in enumerate(c.args):
            if not ms or i in ms:
                if a[0] == "ref":
                    old = self.read(st, a[1], a[2])
                    if ms is None: continue
                    self.write(st, a[1], a[2], ("mod", n, i, self.modbase(old)))
                elif a[0] == "slice" and ms is not None:
                    old = self.read(st, a[1], a[2])
                    new = self.wr(old, a[3], a[4], ("mod", n, i, ("sub", ("any",), a[3], a[4])))
                    self.write(st, a[1], a[2], new)
                elif ms is not None and a[0] not in ("&", "agg", "int", "str") and self.mutslice(c, i):
                    old = self.read(st, ("ext", a), ())
                    self.write(st, ("ext", a), (), ("mod", n, i, ("sub", ("any",), I(0), self.clen(old))))
    def mutslice(self, c, i):
        t = c.fr.body[c.fr.bb]["t"]; o = t[2][i]
        ty = c.fr.fn.crate.types[c.fr.fn.locals[o[1][0]]]
        return ty.k == "ref" and c.fr.fn.crate.types[ty.d["to"]].k == "slice" if isinstance(ty.d.get("to"), int) else False
    def modbase(self, v):
        return v if v[0] != "mod" else v[3]
    def mut_args(self, c):
        """indices of arguments whose type is &mut"""
        fr = c.fr
        t = fr.body[fr.bb]["t"]
        out = set()
        if t[0] != "call": return None
        for i, o in enumerate(t[2]):
            if o[0] in ("c", "m"):
                pl = o[1]
                if not pl[1]:
                    ty = fr.fn.crate.types[fr.fn.locals[pl[0]]]
                    if ty.k == "ref" and ty.d["mut"]: out.add(i)
                    elif ty.k == "adt" and ty.d["def"].endswith("pin::Pin"): out.add(i)
        return out or None

    # ------------------------------------------------------------ futures
    def do_poll(self, st, c, destp, tgt):
        """`fut.await`: the pending edge is dropped, the ready value is the future's output"""
        pin = c.args[0]
        r = self.unpin(st, pin)
        fut = self.fut_value(st, r)
        return self.await_value(st, fut, r, c, destp, tgt)
    def unpin(self, st, v):
        for _ in range(8):
            if v[0] == "agg" and v[1] == "adt" and v[2].endswith("pin::Pin"): v = v[4][0]
            else: break
        return v
    def fut_value(self, st, r):
        """value of the future behind the pinned reference"""
        v = r
        for _ in range(10):
            if v[0] == "ref": v = self.read(st, v[1], v[2])
            elif v[0] == "agg" and v[1] == "adt" and v[2].endswith("pin::Pin"): v = v[4][0]
            elif v[0] == "&": v = v[1]
            elif v[0] == "boxed": v = v[1]
            else: break
        return v
    def await_value(self, st, fut, ref, c, destp, tgt, onret=("poll",)):
        if fut[0] == "agg" and fut[1] == "coroutine" and fut[2] in self.p.fns and len(st.frames) < self.max_depth \
           and sum(1 for f in st.frames if f.fn.key == fut[2]) < 1 and not self.noinline(fut[2], fut[2]):
            sub_ = dict(fut[5]) if len(fut) > 5 else {}
            self.call_frame(st, self.p.fns[fut[2]], [fut], destp, tgt, sub_, onret)
            return None
        if fut[0] == "fut":
            r = fut[1](self, st, fut, c, destp, tgt, onret)
            if r is not NotImplemented: return r
        h = self.models.get("await:" + fut[0]) 
        if fut[0] == "call":
            h = self.models.get("await:" + fut[1])
        elif fut[0] == "ret":
            h = self.models.get("await:" + fut[2])
        if h is not None:
            r = h(self, st, fut, ref, c, destp, tgt, onret)
            if r is not NotImplemented: return r
        n = st.fresh()
        res = ("out", n, self.deep(st, fut))
        st.trace.append(Ev("await", fut[2] if fut[0] == "ret" else (fut[1] if fut[0] == "call" else ""), args=(self.deep(st, fut),), res=res, n=n, fn=c.fr.fn.key,
                           line=c.line, file=c.file, stack=tuple(f.fn.key for f in st.frames)))
        ev = st.trace[-1]
        for k, h in self.hooks.items():
            if k.startswith("await:") and ev.cid.endswith(k[6:]): h(self, st, ev, c)
        return self.apply_onret(st, onret, res, destp, tgt)

def renum(t, n):
    """loop terms without the number of the widening that made them"""
    if isinstance(t, tuple):
        if len(t) > 1 and t[0] == "lv" and t[1] == n: return ("lv", 0) + tuple(renum(x, n) for x in t[2:])
        if len(t) == 3 and t[0] == "hv" and t[2] == n: return ("hv", renum(t[1], n), 0)
        if len(t) == 4 and t[0] == "hvr" and t[3] == n: return ("hvr", renum(t[1], n), t[2], 0)
        return tuple(renum(x, n) for x in t)
    if isinstance(t, (list, frozenset)): return [renum(x, n) for x in sorted(t, key=repr)]
    if isinstance(t, dict): return sorted(((renum(k, n), v) for k, v in t.items()), key=repr)
    return t

def split_args(s):
    """top-level generic arguments of a type string"""
    i = s.find("<")
    if i < 0: return []
    out = []; d = 0; cur = ""
    for ch in s[i + 1:-1]:
        if ch in "<([": d += 1
        if ch in ">)]": d -= 1
        if ch == "," and d == 0: out.append(cur.strip()); cur = ""
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out

def ctor_of(prog, key):
    """constructor key -> (adt key, variant index)"""
    k = key
    if k.endswith("::{constructor#0}"): k = k[: -len("::{constructor#0}")]
    if k in prog.adts: return k, 0
    par, _, name = k.rpartition("::")
    a = prog.adt(par)
    if a:
        for i, v in enumerate(a["variants"]):
            if v["name"] == name: return par, i
    return None
