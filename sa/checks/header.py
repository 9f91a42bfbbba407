"""C01, C02 (header codec), C03, C04 (key folds, widths, equality)."""
from checks import check
from terms import *
from models import byte, canonbyte, content
import numdom

VK = "postcard_rpc::header::VarKey"; VS = "postcard_rpc::header::VarSeq"; VH = "postcard_rpc::header::VarHeader"
KW = [1, 2, 4, 8]; SW = [1, 2, 4]

def adt(suffix, p):
    c = [k for k in p.adts if k.endswith(suffix)]
    from core import Missing
    if len(c) != 1: raise Missing("type " + suffix)
    return c[0]
class Names:
    def __init__(self, ctx):
        p = ctx.p
        self.VK = adt("header::VarKey", p); self.VS = adt("header::VarSeq", p); self.VH = adt("header::VarHeader", p)
        self.KK = adt("header::VarKeyKind", p); self.SK = adt("header::VarSeqKind", p)
        # variant index by width, from the declared variant names
        self.kvar = self.vmap(p, self.VK, {"Key1": 1, "Key2": 2, "Key4": 4, "Key8": 8})
        self.svar = self.vmap(p, self.VS, {"Seq1": 1, "Seq2": 2, "Seq4": 4})
        self.kkvar = self.vmap(p, self.KK, {"Key1": 1, "Key2": 2, "Key4": 4, "Key8": 8})
        self.skvar = self.vmap(p, self.SK, {"Seq1": 1, "Seq2": 2, "Seq4": 4})
        self.K = {w: "postcard_rpc::Key%d" % w for w in (1, 2, 4)}
        f = [x["name"] for x in p.adt(self.VH)["variants"][0]["fields"]] if isinstance(p.adt(self.VH)["variants"][0]["fields"][0], dict) else p.adt(self.VH)["variants"][0]["fields"]
        self.hkey = 0; self.hseq = 1
        names = [x if isinstance(x, str) else (x[0] if isinstance(x, list) else x) for x in f]
        if "seq_no" in names: self.hseq = names.index("seq_no"); self.hkey = names.index("key")
    def vmap(self, p, a, m):
        from core import Missing
        r = {}
        for i, v in enumerate(p.adt(a)["variants"]):
            if v["name"] in m: r[m[v["name"]]] = i
        if len(r) != len(m): raise Missing("variants of " + a)
        return r
    # ---- abstract inputs
    def key_atoms(self, w, tag="k"): return tuple(("sym", "%s%d[%d]" % (tag, w, i)) for i in range(w))
    def mkkey(self, w, tag="k"):
        """(VarKey value, its bytes)"""
        i = self.kvar[w]
        if w == 8:
            k = ("sym", "%s8" % tag)
            return ("agg", "adt", self.VK, i, (k,)), tuple(("elem", ("kb", k), I(n)) for n in range(8))
        bs = self.key_atoms(w, tag)
        inner = bs[0] if w == 1 else ("agg", "array", None, 0, bs)
        return ("agg", "adt", self.VK, i, (("agg", "adt", self.K[w], 0, (inner,)),)), bs
    def mkseq(self, w, tag="s"):
        s = ("sym", "%s%d" % (tag, w))
        return ("agg", "adt", self.VS, self.svar[w], (s,)), s
    def kind(self, w): return ("agg", "adt", self.KK, self.kkvar[w], ())
    def skind(self, w): return ("agg", "adt", self.SK, self.skvar[w], ())
    def mkhdr(self, kw, sw):
        k, kb = self.mkkey(kw); s, sv = self.mkseq(sw)
        f = [None, None]; f[self.hkey] = k; f[self.hseq] = s
        return ("agg", "adt", self.VH, 0, tuple(f)), kb, sv
    # ---- reading back
    def key_bytes(self, E, v):
        """(width, bytes) of a VarKey term with known variant"""
        if v[0] != "agg" or v[2] != self.VK: return None
        for w, i in self.kvar.items():
            if v[3] == i:
                k = v[4][0]
                if w == 8:
                    if k[0] == "call" and k[1].endswith("Key::from_bytes"): return 8, tuple(canonbyte(E.elem(k[3], I(n))) for n in range(8))
                    return 8, tuple(("elem", ("kb", k), I(n)) for n in range(8))
                x = E.proj(k, ("f", 0, 0))
                if w == 1: return 1, (canonbyte(x),)
                return w, tuple(canonbyte(E.elem(x, I(n))) for n in range(w))
        return None
    def seq_val(self, v):
        if v[0] != "agg" or v[2] != self.VS: return None
        for w, i in self.svar.items():
            if v[3] == i: return w, v[4][0]
        return None

def sbyte(v, w, i): return canonbyte(v) if w == 1 else byte(v, i)
def at(f): return "%s:%s (%s)" % (f.file, f.line, f.key)
def disc(kw, sw): return KW.index(kw) << 6 | SW.index(sw) << 4

def panics(ctx, p, fname, where):
    """panic obligations left open on this path"""
    for e in p.trace:
        if e.kind in ("panic", "maypanic"):
            ctx.viol("%s:panic:%s" % (fname, e.cid), "%s can panic: %s not established (%s)" % (fname, e.cid, ", ".join(show(a) for a in e.args)), e.at())
    if p.end == "panic" and not any(e.kind == "panic" for e in p.trace):
        ctx.viol("%s:panic:%s" % (fname, p.note), "%s reaches a panic (%s)" % (fname, p.note), where)

def encoders(ctx, N, layout=True, total=True):
    E = ctx.engine()
    fv = ctx.inherent("header::VarHeader", "write_to_vec") if ctx.p.inherent("header::VarHeader", "write_to_vec") else None
    fs = ctx.inherent("header::VarHeader", "write_to_slice")
    for kw in KW:
        for sw in SW:
            hdr, kb, sv = N.mkhdr(kw, sw)
            want = (I(disc(kw, sw)),) + kb + tuple(sbyte(sv, sw, i) for i in range(sw))
            n = len(want)
            tag = "key%d/seq%d" % (kw, sw)
            def prep(st): st.mem[("heap", "hdr")] = hdr
            # ---- growable encoder
            if fv is not None:
                for p in ctx.run(fv, E, args=[("ref", ("heap", "hdr"), ())], prep=prep):
                    panics(ctx, p, "write_to_vec", at(fv))
                    if p.end != "return" or not layout: continue
                    ln = E.clen(p.ret)
                    got = tuple(canonbyte(E.elem(p.ret, I(i))) for i in range(n)) if ln == I(n) else None
                    ctx.expect(got == want, "write_to_vec:" + tag, "write_to_vec for %s yields %s, expected bytes %s" % (tag, show(p.ret), [show(x) for x in want]), at(fv), "encoder layout")
                    ctx.sample({"fn": "write_to_vec", "case": tag, "bytes": [show(x) for x in want]})
            # ---- bounded encoder
            base = ("deref", ("arg", 2)); L = op("len", base)
            ps = ctx.run(fs, E, args=[("ref", ("heap", "hdr"), ()), ("slice", ("ext", ("arg", 2)), (), I(0), L)], prep=prep)
            for p in ps:
                if total: panics(ctx, p, "write_to_slice", at(fs))
                if p.end != "return": continue
                v = p.ret
                if v == NONE:
                    if total:
                        ok_ = numdom.entails(p.lin, numdom.ge(I(n - 1), L))
                        ctx.expect(ok_, "write_to_slice:none:" + tag, "write_to_slice refuses a buffer that may be large enough for %s (%d bytes)" % (tag, n), at(fs), "too small => failure")
                    continue
                if v[0] != "agg" or v[3] != 1 or v[4][0][0] != "agg":
                    ctx.viol("write_to_slice:shape:" + tag, "write_to_slice returns %s" % show(v), at(fs)); continue
                used, rest = v[4][0][4]
                if total:
                    ctx.expect(numdom.entails(p.lin, numdom.ge(L, I(n))), "write_to_slice:some:" + tag, "write_to_slice succeeds for %s without having checked that %d bytes fit" % (tag, n), at(fs), "success => fits")
                if layout:
                    c = p.mem.get(("ext", ("arg", 2)), base)
                    uc = content(E, p, used)
                    got = tuple(canonbyte(E.elem(uc, I(i))) for i in range(n)) if E.clen(uc) == I(n) else None
                    ctx.expect(got == want, "write_to_slice:" + tag, "write_to_slice for %s writes %s, expected %s" % (tag, show(uc, 8), [show(x) for x in want]), at(fs), "encoder layout")
                    ctx.expect(used[0] == "slice" and used[1] == ("ext", ("arg", 2)) and used[3] == I(0), "write_to_slice:start:" + tag, "header is not written at the start of the buffer", at(fs))
                    ctx.expect(rest[0] == "slice" and rest[1] == ("ext", ("arg", 2)) and rest[3] == I(n) and rest[4] == sub(L, I(n)), "write_to_slice:rest:" + tag, "the unused part reported for %s is %s" % (tag, show(rest)), at(fs), "unused tail")
            ctx.expect(any(p.end == "return" and p.ret[3] == 1 for p in ps if p.ret), "write_to_slice:never:" + tag, "write_to_slice never succeeds for " + tag, at(fs))

def decoder(ctx, N, layout=True, total=True):
    E = ctx.engine()
    f = ctx.inherent("header::VarHeader", "take_from_slice")
    base = ("deref", ("arg", 1)); L = op("len", base)
    for b0 in [None] + list(range(256)):
        def prep(st):
            if b0 is None:
                st.lin.append(numdom.ge(I(0), L))
            else:
                st.mem[("ext", ("arg", 1))] = ("wr", base, I(0), I(1), ("one", I(b0)))
                st.lin.append(numdom.ge(L, I(1)))
        valid = b0 is not None and (b0 & 15) == 0 and ((b0 >> 4) & 3) != 3
        if layout and not total and not valid: continue
        ps = ctx.run(f, E, args=[("slice", ("ext", ("arg", 1)), (), I(0), L)], prep=prep)
        tag = "empty" if b0 is None else "first byte 0x%02x" % b0
        somes = 0
        for p in ps:
            if total: panics(ctx, p, "take_from_slice", at(f))
            if p.end != "return": continue
            v = p.ret
            if not valid:
                if total: ctx.expect(v == NONE, "take_from_slice:accepts:" + tag, "take_from_slice accepts a frame with %s: %s" % (tag, show(v)), at(f), "invalid => None")
                continue
            kw, sw = KW[b0 >> 6], SW[(b0 >> 4) & 3]
            n = 1 + kw + sw
            if v == NONE:
                ctx.expect(numdom.entails(p.lin, numdom.ge(I(n - 1), L)), "take_from_slice:rejects:" + tag, "take_from_slice rejects frames with %s that hold the %d header bytes" % (tag, n), at(f), "complete header => Some")
                continue
            if v[0] != "agg" or v[4][0][0] != "agg":
                ctx.viol("take_from_slice:shape", "take_from_slice returns %s" % show(v), at(f)); continue
            somes += 1
            if total: ctx.expect(numdom.entails(p.lin, numdom.ge(L, I(n))), "take_from_slice:short:" + tag, "take_from_slice accepts a truncated header (%s)" % tag, at(f), "truncated => None")
            if layout:
                h, rest = v[4][0][4]
                k = N.key_bytes(E, E.proj(h, ("f", 0, N.hkey))); s = N.seq_val(E.proj(h, ("f", 0, N.hseq)))
                wantk = (kw, tuple(("elem", base, I(1 + i)) for i in range(kw)))
                ctx.expect(k == wantk, "take_from_slice:key:" + tag, "take_from_slice (%s) decodes the key as %s" % (tag, show(h, 8)), at(f), "decoder layout")
                wants = tuple(("elem", base, I(1 + kw + i)) for i in range(sw))
                gots = None if s is None or s[0] != sw else tuple(sbyte(s[1], sw, i) for i in range(sw))
                ctx.expect(gots == wants, "take_from_slice:seq:" + tag, "take_from_slice (%s) decodes the sequence number as %s" % (tag, show(h, 8)), at(f), "decoder layout")
                okr = rest[0] == "slice" and rest[1] == ("ext", ("arg", 1)) and rest[3] == I(n) and rest[4] == sub(L, I(n))
                ctx.expect(okr, "take_from_slice:rest:" + tag, "take_from_slice (%s) hands out %s as the body" % (tag, show(rest)), at(f), "body = what follows the header")
                ctx.sample({"fn": "take_from_slice", "case": tag, "header": show(h, 8), "body": show(rest)})
        if valid: ctx.expect(somes > 0, "take_from_slice:never:" + tag, "take_from_slice never accepts frames with " + tag, at(f))

@check("C01", "Path-sensitive abstract interpretation of the MIR of both encoders (one partition per key width x sequence width, key and sequence bytes symbolic, buffer of any length) and of the decoder (one partition per valid descriptor byte, frame of any length). For every path the produced bytes / decoded fields / body slice are compared, as terms, with the layout descriptor|key|little-endian sequence; the encoder and decoder tables are the same table, so they are mutually inverse.",
       ["slice, integer and Vec library functions behave as modelled in sa/models.py", "postcard_schema Key::to_bytes/from_bytes are inverse byte copies"])
def c01(ctx):
    N = Names(ctx)
    encoders(ctx, N, layout=True, total=False)
    decoder(ctx, N, layout=True, total=False)
    ctx.floor("encoder layout", ctx.cov["rules"].get("encoder layout", 0), 24)
    ctx.floor("decoder layout", ctx.cov["rules"].get("decoder layout", 0), 24)

@check("C02", "Abstract interpretation of the decoder over every value of the first byte (plus the empty frame) and every frame length, and of the bounded encoder over all key/sequence widths and buffer lengths: every panic obligation (index, slice, split, copy length, arithmetic overflow, unwrap, unreachable) must be discharged by the length constraints on its path, invalid descriptors must return None on every path, and success/None must be equivalent to the length being sufficient (decided in a linear-inequality domain).",
       ["slice library functions panic exactly as modelled in sa/models.py"])
def c02(ctx):
    N = Names(ctx)
    encoders(ctx, N, layout=False, total=True)
    decoder(ctx, N, layout=False, total=True)
    ctx.floor("invalid => None", ctx.cov["rules"].get("invalid => None", 0), 240)
    ctx.floor("truncated => None", ctx.cov["rules"].get("truncated => None", 0), 12)
