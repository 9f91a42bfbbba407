"""Facts build (from /repo's current working tree), check context, evidence and verdicts."""
import hashlib, json, os, subprocess, sys, time, shutil, fcntl, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
PKG = os.path.join(REPO, "source", "postcard-rpc")
BUILD = os.path.join(VERIF, ".build")
DRIVER_SRC = os.path.join(VERIF, "driver")
WITNESS = os.path.join(VERIF, "witness")
WITNESS_C = os.path.join(VERIF, "witness_c")
WITNESS_NS = os.path.join(VERIF, "witness_ns")

class BuildError(Exception): pass

def sh(cmd, cwd, env=None, timeout=800):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTC", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_TARGET_DIR", "RUSTUP_TOOLCHAIN", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET"): e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    if env: e.update(env)
    return subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)

def tree_hash(*roots):
    h = hashlib.sha256()
    for root in roots:
        if os.path.isfile(root):
            h.update(root.encode()); h.update(open(root, "rb").read()); continue
        for d, ds, fs in sorted(os.walk(root)):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git", ".build", "__pycache__"))
            for f in sorted(fs):
                p = os.path.join(d, f)
                if not f.endswith((".rs", ".toml", ".lock", ".md")): continue
                h.update(p.encode()); h.update(b"\0")
                try: h.update(open(p, "rb").read())
                except OSError: pass
                h.update(b"\0")
    return h.hexdigest()[:24]

_sysroot = None
def sysroot():
    global _sysroot
    if _sysroot is None:
        r = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], stdout=subprocess.PIPE, text=True)
        _sysroot = r.stdout.strip()
    return _sysroot

def driver():
    """build the mirfacts driver if it is missing or older than its source"""
    bin_ = os.path.join(BUILD, "driver", "debug", "mirfacts")
    want = tree_hash(DRIVER_SRC)
    stamp = os.path.join(BUILD, "driver", "stamp")
    if os.path.exists(bin_) and os.path.exists(stamp) and open(stamp).read() == want: return bin_
    r = sh(["cargo", "+nightly", "build", "--offline"], DRIVER_SRC, {"CARGO_TARGET_DIR": os.path.join(BUILD, "driver")})
    if r.returncode != 0 or not os.path.exists(bin_):
        raise BuildError("driver build failed:\n" + r.stdout[-4000:])
    open(stamp, "w").write(want)
    return bin_

def build(bin_, wit, name, tgt, out):
    """MIR facts of postcard_rpc and of one witness crate, in that crate's configuration"""
    os.makedirs(out, exist_ok=True)
    need = (name,) if name == "witness_c" else ("postcard-rpc", name)
    for p in need: shutil.rmtree(os.path.join(tgt, "debug", "build", p), ignore_errors=True)
    shutil.rmtree(os.path.join(tgt, "debug", "incremental"), ignore_errors=True)
    env = {"CARGO_INCREMENTAL": "0", "MIRFACTS_CRATES": ",".join(n.replace("-", "_") for n in need), "MIRFACTS_OUT": out,
           "RUSTC_WRAPPER": bin_, "CARGO_TARGET_DIR": tgt, "LD_LIBRARY_PATH": sysroot() + "/lib"}
    cmd = ["cargo", "+nightly", "check", "--offline"]
    done = lambda: all(os.path.exists(out + "/" + n.replace("-", "_") + ".json") for n in need)
    r = sh(cmd, wit, env)
    if r.returncode == 0 and not done():
        # stale fingerprints: force a rebuild of both crates
        sh(["cargo", "+nightly", "clean", "--offline"] + [x for n in need for x in ("-p", n)], wit, env)
        r = sh(cmd, wit, env)
    if r.returncode != 0: raise BuildError("facts build failed (%s):\n" % name + r.stdout[-6000:])
    if not done(): raise BuildError("driver wrote no facts (%s):\n" % name + r.stdout[-2000:])

def facts():
    """directory with the MIR facts of the current tree"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        bin_ = driver()
        h = tree_hash(PKG, os.path.join(WITNESS, "src"), os.path.join(WITNESS, "Cargo.toml"), os.path.join(WITNESS_C, "src"), os.path.join(WITNESS_C, "Cargo.toml"), os.path.join(WITNESS_NS, "src"), os.path.join(WITNESS_NS, "Cargo.toml"), os.path.join(DRIVER_SRC, "src"))
        out = os.path.join(BUILD, "facts", h)
        if os.path.exists(os.path.join(out, "ok")): return out
        base = os.path.join(BUILD, "facts")
        if os.path.isdir(base):
            old = sorted((os.path.getmtime(os.path.join(base, d)), d) for d in os.listdir(base))
            for _, d in old[:-6]: shutil.rmtree(os.path.join(base, d), ignore_errors=True)
        shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(2) as ex:
            jobs = [ex.submit(build, bin_, WITNESS, "witness", os.path.join(BUILD, "target"), out),
                    ex.submit(build, bin_, WITNESS_NS, "witness_ns", os.path.join(BUILD, "target_ns"), os.path.join(out, "ns"))]
            for j in jobs: j.result()
        # the constant witnesses: a program that does not compile here is a verdict on constants only
        try: build(bin_, WITNESS_C, "witness_c", os.path.join(BUILD, "target"), out)
        except BuildError as e: open(os.path.join(out, "witness_c.err"), "w").write(str(e))
        open(os.path.join(out, "ok"), "w").write("ok")
        return out

class Missing(Exception):
    """an anchor the rule needs is not in the program"""

class Ctx:
    def __init__(self, pid, tier, prog):
        self.pid = pid; self.tier = tier; self.p = prog
        self.violations = []; self.known = []
        self.cov = {"functions": set(), "paths": 0, "call_sites": 0, "obligations": 0, "rules": {}}
        self.samples = []
        self.notes = []
    # -------------------------------------------------- reporting
    def viol(self, key, msg, where=""):
        """key: stable identification of the construct (no line numbers)"""
        if not any(v["key"] == key for v in self.violations):
            self.violations.append({"key": key, "message": msg, "where": where})
    def rule(self, name, n=1):
        self.cov["rules"][name] = self.cov["rules"].get(name, 0) + n
    def floor(self, name, got, want):
        """an analysis that matched fewer instances than counted by hand is vacuous: fail closed"""
        if got < want:
            self.viol("floor:" + name, "rule '%s' matched %d instances, expected at least %d" % (name, got, want))
    def expect(self, cond, key, msg, where="", rule=None):
        self.cov["obligations"] += 1
        if rule: self.rule(rule)
        if not cond: self.viol(key, msg, where)
        return cond
    def sample(self, s):
        if len(self.samples) < 12: self.samples.append(s)
    # -------------------------------------------------- programs
    def nostd(self):
        """the library in its device configuration (without `use-std`)"""
        if not hasattr(self, "_ns"):
            from facts import Prog
            self._ns = Prog([self.dir + "/ns/postcard_rpc.json", self.dir + "/ns/witness_ns.json"])
        return self._ns
    def const(self, key, prog=None):
        """value of a constant item as the compiler evaluates it"""
        if key.startswith("witness_c::"):
            if not hasattr(self, "_wc"):
                if not os.path.exists(self.dir + "/witness_c.json"): raise Missing("the constant witnesses do not compile: " + open(self.dir + "/witness_c.err").read()[-1500:])
                self._wc = json.load(open(self.dir + "/witness_c.json"))["consts"]
            c = self._wc
        else: c = (prog or self.p).crates[key.split("::")[0]].consts
        if key not in c: raise Missing("constant " + key)
        return c[key]
    # -------------------------------------------------- engine
    def engine(self, **kw):
        from engine import Engine
        return Engine(self.p, **kw)
    def run(self, fn, E=None, args=None, subst=None, prep=None, strict=True, **kw):
        E = E or self.engine(**kw)
        ps = E.run(fn, args=args, subst=subst, prep=prep)
        self.cov["functions"] |= E.functions
        self.cov["paths"] += len(ps)
        self.cov["call_sites"] += E.callsites
        self.cov["obligations"] += E.obligations
        E.callsites = E.obligations = 0
        if E.truncated and strict:
            key = fn if isinstance(fn, str) else fn.key
            self.viol("truncated:" + self.p.cid(key), "analysis budget exceeded: paths of %s are not all covered" % key)
        return ps
    # -------------------------------------------------- anchors
    def inherent(self, adt, name):
        fs = self.p.inherent(adt, name)
        if len(fs) != 1: raise Missing("%s::%s (%d bodies)" % (adt, name, len(fs)))
        return fs[0]
    def trait_fn(self, trait, name, pred, what):
        fs = self.p.impl_fn(trait, name, pred)
        if len(fs) != 1: raise Missing("<%s as %s>::%s (%d bodies)" % (what, trait, name, len(fs)))
        return fs[0]

KNOWN = os.path.join(VERIF, "known_findings.jsonl")
def known_findings(pid):
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if not l or l.startswith("#") or l.startswith("fixed:"): continue
            j = json.loads(l)
            if j.get("property") == pid and j.get("status") == "known": out[j["key"]] = j
    return out

def main(pid, tier, fn, explanation, assumptions):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    from facts import Prog
    ctx = None
    try:
        d = facts()
        prog = Prog([d + "/postcard_rpc.json", d + "/witness.json"])
        ctx = Ctx(pid, tier, prog); ctx.dir = d
        ctx.floor("MIR bodies of postcard_rpc", len(prog.crates["postcard_rpc"].fns), 700)
        ctx.floor("MIR bodies of witness", len(prog.crates["witness"].fns), 60)
        try:
            fn(ctx)
        except Missing as e:
            ctx.viol("missing-anchor:%s" % e, "the rule's anchor is not in the program: %s" % e)
        except Exception as e:
            ctx.viol("analysis-error:%s" % type(e).__name__, "the analysis could not establish the property: %s\n%s" % (e, traceback.format_exc()[-1500:]))
    except BuildError as e:
        ctx = Ctx(pid, tier, None)
        ctx.viol("build", str(e))
    kf = known_findings(pid)
    viol = [v for v in ctx.violations if v["key"] not in kf]
    for v in ctx.violations:
        if v["key"] in kf: print("KNOWN-FINDING: property=%s %s" % (pid, kf[v["key"]]["what"]))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    cov = dict(ctx.cov)
    fns = sorted(cov["functions"])
    cov["functions_analysed"] = len(fns); cov["functions"] = fns[:80]
    cov["abstract_paths"] = cov.pop("paths")
    cov["explanation"] = explanation
    cov["samples"] = ctx.samples
    if ctx.notes: cov["notes"] = ctx.notes
    cov["checker_cmd"] = "python3 /verif/check.py %s --tier %s" % (pid, tier)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
          "assumptions": assumptions, "wall_s": round(time.time() - t0, 2), "violations": [v["key"] for v in viol]}
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1, default=str)
    if viol:
        rp = os.path.join(BUILD, "replay"); os.makedirs(rp, exist_ok=True)
        path = os.path.join(rp, pid + ".txt")
        with open(path, "w") as f:
            for v in viol: f.write("%s\n  %s\n  at %s\n\n" % (v["key"], v["message"], v["where"]))
        for v in viol[:12]:
            print("%s: %s%s" % (v["key"], v["message"], (" [at %s]" % v["where"]) if v["where"] else ""))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    print("OK property=%s functions=%d paths=%d obligations=%d wall=%.1fs" % (pid, len(fns), cov["abstract_paths"], cov["obligations"], time.time() - t0))
    return 0
