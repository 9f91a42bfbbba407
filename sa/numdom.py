"""Linear-inequality (polyhedral) domain over non-negative integer terms.

A constraint is (c, {atom: coef}) meaning  c + sum coef*atom >= 0.
Entailment is decided by Fourier-Motzkin elimination on the relevant
constraints, with a cap; giving up means "not entailed" (sound)."""
from functools import lru_cache
from terms import *

def implicit(atom):
    """constraints that hold for an atom by its shape"""
    out = []
    if atom[0] == "op":
        n = atom[1]
        if n == "Rem" and atom[3][0] == "int" and atom[3][1] > 0:
            out.append(ge(I(atom[3][1] - 1), atom))
            out.append(ge(atom[2], atom))
        elif n == "BitAnd":
            for a in atom[2:]:
                out.append(ge(a, atom))
        elif n == "len":                # no allocation exceeds isize::MAX
            out.append(ge(I((1 << 63) - 1), atom))
        elif n == "min":
            for a in atom[2:]: out.append(ge(a, atom))
        elif n == "max":
            for a in atom[2:]: out.append(ge(atom, a))
        elif n == "satsub":
            out.append(ge(atom[2], atom))
            out.append(ge(atom, sub(atom[2], atom[3])))
        elif n == "Div" and atom[3][0] == "int" and atom[3][1] > 0:
            c = atom[3][1]
            out.append(ge(atom[2], mulc(atom, c)))
            out.append(ge(add(mulc(atom, c), I(c - 1)), atom[2]))
        elif n == "divceil" and atom[3][0] == "int" and atom[3][1] > 0:
            c = atom[3][1]
            out.append(ge(mulc(atom, c), atom[2]))
            out.append(ge(add(atom[2], I(c - 1)), mulc(atom, c)))
        elif n == "chunklen":           # length of an element of chunks(content, n)
            out.append(ge(atom[3], atom)); out.append(ge(atom, I(1)))
    if atom[0] == "u8": out.append(ge(I(255), atom))
    return out

def ge(a, b):
    """a >= b as a constraint"""
    c, d = lin(sub(a, b))
    return (c, d)

def norm(con):
    c, d = con
    return (c, tuple(sorted(((k, v) for k, v in d.items() if v), key=repr)))

def infeasible(cons, cap=600):
    """True if the constraints (over non-negative atoms) have no solution (rationals)."""
    # close under implicit constraints
    atoms = set(); todo = list(cons); allc = []
    seen = set()
    while todo:
        con = todo.pop()
        n = norm(con)
        if n in seen: continue
        seen.add(n)
        allc.append(dict(con[1])); allc[-1][None] = con[0]
        for a in con[1]:
            if a not in atoms and con[1][a] != 0:
                atoms.add(a)
                todo.append((0, {a: 1}))
                todo.extend(implicit(a))
    cs = allc
    while True:
        for c in cs:
            if all(v == 0 for k, v in c.items() if k is not None) and c.get(None, 0) < 0:
                return True
        vars_ = {}
        for c in cs:
            for k, v in c.items():
                if k is not None and v != 0:
                    p, n = vars_.get(k, (0, 0))
                    vars_[k] = (p + (v > 0), n + (v < 0))
        if not vars_: return False
        x = min(vars_, key=lambda k: (vars_[k][0] * vars_[k][1], repr(k)))
        pos = [c for c in cs if c.get(x, 0) > 0]
        neg_ = [c for c in cs if c.get(x, 0) < 0]
        rest = [c for c in cs if c.get(x, 0) == 0]
        if len(pos) * len(neg_) + len(rest) > cap: return False
        new = rest; seen2 = set()
        for p in pos:
            for n in neg_:
                a, b = p[x], -n[x]
                r = {}
                for k in set(p) | set(n):
                    v = p.get(k, 0) * b + n.get(k, 0) * a
                    if k != x and (v != 0 or k is None): r[k] = v
                key = tuple(sorted(((repr(k), v) for k, v in r.items())))
                if key not in seen2:
                    seen2.add(key); new.append(r)
        cs = new

@lru_cache(200000)
def closure(atom):
    """the atom and those its implicit constraints speak about"""
    out = set(); todo = [atom]
    while todo:
        a = todo.pop()
        if a in out: continue
        out.add(a)
        for c, d in implicit(a): todo.extend(d)
    return frozenset(out)
def relevant(cons, seed):
    """constraints connected to the atoms of `seed`"""
    atoms = set()
    for a in seed[1]: atoms |= closure(a)
    out = []; rest = [(c, frozenset().union(*(closure(a) for a in c[1]))) for c in cons]; changed = True
    while changed:
        changed = False; r2 = []
        for c, k in rest:
            if k & atoms:
                out.append(c); atoms |= k; changed = True
            else: r2.append((c, k))
        rest = r2
    return out

def entails(cons, con):
    c, d = con
    d = {k: v for k, v in d.items() if v}
    if not d: return c >= 0
    negc = (-c - 1, {k: -v for k, v in d.items()})
    rel = relevant(cons, negc)
    return infeasible(rel + [negc])
