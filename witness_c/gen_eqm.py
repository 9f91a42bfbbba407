#!/usr/bin/env python3
"""writes src/eqm.rs: families of schemas that differ in exactly one place, whose members a
list of unique types has to keep apart, and chains that are deep or wide"""
out = ["//! generated by gen_eqm.py: schemas that differ in exactly one place", "#![allow(dead_code)]", "use super::*;", "use postcard_schema::schema::{DataModelType as D, DataModelVariant as W, NamedValue, NamedVariant};", ""]
def nt(name, ty): return '&NamedType { name: "%s", ty: &%s }' % (name, ty)
U8 = "D::U8"
def leaf(name, kind=0):
    return nt(name, ["D::UnitStruct", "D::NewtypeStruct(%s)" % nt("u8", U8), "D::NewtypeStruct(%s)" % nt("u16", "D::U16"), "D::Struct(&[])", "D::Enum(&[])"][kind])
A, B, X, P, Q, F = leaf("La"), leaf("Lb"), leaf("Lab"), leaf("La", 1), leaf("La", 2), leaf("Ka")
ONE = [A, B, X, P, Q, F, leaf("La", 3), leaf("La", 4)]
def val(n, t): return '&NamedValue { name: "%s", ty: %s }' % (n, t)
def var(n, t): return '&NamedVariant { name: "%s", ty: &%s }' % (n, t)
def lst(xs): return "&[" + ", ".join(xs) + "]"
C = {
 "option": lambda c: "D::Option(%s)" % c, "newtype": lambda c: "D::NewtypeStruct(%s)" % c, "seq": lambda c: "D::Seq(%s)" % c,
 "tuple0": lambda c: "D::Tuple(%s)" % lst([c, A]), "tuple1": lambda c: "D::Tuple(%s)" % lst([A, c]),
 "ts0": lambda c: "D::TupleStruct(%s)" % lst([c, A]), "ts1": lambda c: "D::TupleStruct(%s)" % lst([A, c]),
 "mapk": lambda c: "D::Map { key: %s, val: %s }" % (c, A), "mapv": lambda c: "D::Map { key: %s, val: %s }" % (A, c),
 "st0": lambda c: "D::Struct(%s)" % lst([val("x", c), val("y", A)]), "st1": lambda c: "D::Struct(%s)" % lst([val("x", A), val("y", c)]),
 "env": lambda c: "D::Enum(%s)" % lst([var("U", "W::UnitVariant"), var("N", "W::NewtypeVariant(%s)" % c)]),
 "ent0": lambda c: "D::Enum(%s)" % lst([var("U", "W::UnitVariant"), var("T", "W::TupleVariant(%s)" % lst([c, A]))]),
 "ent1": lambda c: "D::Enum(%s)" % lst([var("T", "W::TupleVariant(%s)" % lst([A, c])), var("U", "W::UnitVariant")]),
 "ens0": lambda c: "D::Enum(%s)" % lst([var("U", "W::UnitVariant"), var("S", "W::StructVariant(%s)" % lst([val("p", c), val("q", A)]))]),
 "ens1": lambda c: "D::Enum(%s)" % lst([var("S", "W::StructVariant(%s)" % lst([val("p", A), val("q", c)]))]),
}
fam = {}
for k, f in C.items():
    roots = [f(c) for c in ONE]
    # one level further down, in a type of the same name
    order = list(C); at = order.index(k)
    for j in (order[(at + d) % len(order)] for d in (0, 5, 11)): roots += [f(nt("Mid", C[j](A))), f(nt("Mid", C[j](B)))]
    fam[k] = [nt("R", r) for r in roots]
# the same children in other constructors, names, lengths and order
ts = [["D::Tuple(%s)" % lst(x), "D::TupleStruct(%s)" % lst(x), "D::Enum(%s)" % lst([var("T", "W::TupleVariant(%s)" % lst(x))])] for x in ([], [A], [A, A], [A, B], [B, A], [A, B, X], [A, B, P], [A, A, A], [A] * 9 + [B] + [A] * 10, [A] * 19 + [B], [A] * 20, [A] * 20 + [B])]
fam["lists"] = [nt("R", y) for x in ts for y in x]
fs = [[], ["x"], ["y"], ["x", "y"], ["y", "x"], ["x", "z"], ["x", "yy"], ["xx", "y"], ["x", "y", "z"], ["x", "y", "w"]] + [["f%d" % i for i in range(20)], ["f%d" % i for i in range(19)] + ["g"], ["f%d" % i for i in range(10)] + ["g"] + ["f%d" % i for i in range(11, 20)], ["f%d" % i for i in range(21)]]
fam["fields"] = [nt("R", y) for x in fs for y in ("D::Struct(%s)" % lst([val(n, A) for n in x]), "D::Enum(%s)" % lst([var("S", "W::StructVariant(%s)" % lst([val(n, A) for n in x]))]))]
V = lambda n: [var(n, "W::UnitVariant"), var(n, "W::NewtypeVariant(%s)" % A), var(n, "W::TupleVariant(%s)" % lst([A])), var(n, "W::StructVariant(%s)" % lst([val("p", A)])), var(n, "W::TupleVariant(&[])"), var(n, "W::StructVariant(&[])")]
vs = [[]] + [[x] for x in V("Va")] + [[x] for x in V("Vb")] + [[x] for x in V("Vab")] + [[x, V("Vc")[0]] for x in V("Va")] + [[V("Vc")[0], x] for x in V("Va") + V("Vb")] + [[V("V%d" % i)[i % 4] for i in range(20)], [V("V%d" % i)[i % 4] for i in range(19)] + [V("V19")[0]], [V("V%d" % i)[i % 4] for i in range(19)] + [V("W19")[3]], [V("V%d" % i)[i % 4] for i in range(21)]]
fam["variants"] = [nt("R", "D::Enum(%s)" % lst(x)) for x in vs]
nm = ["R", "S", "RR", "SR", "RS", "RSR", "r"] + ["R" * 40, "R" * 39 + "S", "R" * 20 + "S" + "R" * 19, "S" + "R" * 39, "R" * 41]
fam["names"] = [nt(n, t) for n in nm for t in ("D::UnitStruct", "D::Option(%s)" % A, "D::Struct(%s)" % lst([val("x", A)]))]
prims = ["Bool", "I8", "U8", "I16", "I32", "I64", "I128", "U16", "U32", "U64", "U128", "Usize", "Isize", "F32", "F64", "Char", "String", "ByteArray", "Unit", "Schema", "UnitStruct"]
fam["prims"] = [nt("R", f(nt("prim", "D::" + x))) for x in prims for f in (C["option"], C["st1"], C["ent1"])]
# depth: chains of 12 containers around a leaf
def chain(order, l):
    for i, k in enumerate(order): l = nt("C%d" % i, C[k](l))
    return l
ks = list(C)
fam["deep"] = [chain([ks[(s + i * 3) % len(ks)] for i in range(12)], nt("Deep%d" % s, "D::UnitStruct")) for s in range(len(ks))]
fam["deepdiff"] = [chain([ks[(s + i * 5) % len(ks)] for i in range(8)], l) for s in (0, 3, 7) for l in (A, B, P)]
# width: every child of a long list is another type
for w in (17, 70):
    ls = [leaf("W%d" % i, i % 5) for i in range(w)]
    fam["wide%d" % w] = [nt("R%d" % i, x) for i, x in enumerate(["D::Tuple(%s)" % lst(ls), "D::TupleStruct(%s)" % lst(ls), "D::Struct(%s)" % lst([val("f%d" % i, t) for i, t in enumerate(ls)]),
        "D::Enum(%s)" % lst([var("V%d" % i, "W::NewtypeVariant(%s)" % t) for i, t in enumerate(ls)]),
        "D::Enum(%s)" % lst([var("V%d" % i, ["W::TupleVariant(%s)" % lst([t]), "W::StructVariant(%s)" % lst([val("p", t)])][i % 2]) for i, t in enumerate(ls)]),
        "D::Enum(%s)" % lst([var("U", "W::UnitVariant"), var("T", "W::TupleVariant(%s)" % lst(ls))]), "D::Enum(%s)" % lst([var("S", "W::StructVariant(%s)" % lst([val("f%d" % i, t) for i, t in enumerate(ls)]))])])]
for w in (17, 70):
    for i, r in enumerate(fam.pop("wide%d" % w)): fam["wide%d_%d" % (w, i)] = [r, A]
for k, roots in fam.items():
    names = []
    out.append("pub mod f_%s {" % k); out.append("    use super::*;")
    for i, r in enumerate(roots):
        out.append("    pub struct R%d;" % i); out.append("    impl Schema for R%d {" % i); out.append("        const SCHEMA: &'static NamedType = %s;" % r); out.append("    }"); names.append("R%d" % i)
    out.append("    pub struct All;"); out.append("    impl Schema for All {")
    out.append('        const SCHEMA: &\'static NamedType = &NamedType { name: "All", ty: &D::Tuple(&[%s]) };' % ", ".join("R%d::SCHEMA" % i for i in range(len(roots)))); out.append("    }")
    out.append("    uniq! {"); out.append("        u_eq_%s: All;" % k); out.append("    }")
    out.append("    merged! {"); out.append("        m_eq_%s: %s;" % (k, ", ".join(names))); out.append("    }"); out.append("}")
open(__import__("os").path.dirname(__import__("os").path.abspath(__file__)) + "/src/eqm.rs", "w").write("\n".join(out) + "\n")
print({k: len(v) for k, v in fam.items()})
