#!/usr/bin/env python3
"""Writes /verif/witness/lambda/lib.rs: closures with every mix of captures up to three, longer ones, and several numbers of
arguments, called once and repeatedly."""
import itertools
import os
CAP = ["v", "m", "r"]          # by value, by mutable reference, by shared reference
mixes = [m for n in range(4) for m in itertools.product(CAP, repeat=n)]
cases = [(m, k) for m in mixes for k in ((0, 1, 2) if len(m) < 3 else (1,))]
cases += [(tuple("vmrvm"), 3), (tuple("rrvvmm"), 2), (tuple("vvvvvvvv"), 0), (tuple("mmmmm"), 5), (tuple("rvrvrvrv"), 4), ((), 7)]
out = ["//! Closures of every mix of captures (written by tools/gen_witness_lambda.py). Nothing here is run: what the macro makes of",
       "//! them is analysed. The functions of `user` stand for the bodies.",
       "#![allow(dead_code, unused_variables, unused_mut, clippy::all)]",
       "use crossmist::{lambda, FnMutObject, FnObject, FnOnceObject};", ""]
user, wrap = ["pub mod user {"], []


def emit(name, mix, k, vt, calls, how, extra=""):
    caps = ["c%d" % i for i in range(len(mix))]
    args = ["a%d" % i for i in range(k)]
    base = [vt if c == "v" else "String" for c in mix]
    ty = [b if c == "v" else ("&mut " if c == "m" else "&") + b for c, b in zip(mix, base)]
    sig = ", ".join([f"{n}: {t}" for n, t in zip(caps, ty)] + [f"{a}: String" for a in args])
    user.append(f"    #[inline(never)]\n    pub fn {name}({sig}) -> String {{\n        panic!()\n    }}")
    pre = {"v": "", "m": "&mut ", "r": "&"}
    mv = ", ".join(f"{pre[c]}{n}: {t}" for c, n, t in zip(mix, caps, ty)) + extra
    body = f"user::{name}({', '.join(caps + args)})"
    la = f"lambda! {{ {'move(' + mv + ') ' if mix else ''}|{', '.join(a + ': String' for a in args)}| -> String {{ {body} }} }}"
    ins = [f"{n}: {b}" for n, b in zip(caps, base)]
    tup = lambda xs: "(" + ", ".join(xs) + ("," if len(xs) == 1 else "") + ")"
    for j in range(calls):
        ins += [f"{a}_{j}: String" for a in args]
    t = [tup([f"{a}_{j}" for a in args]) for j in range(calls)]
    call = {"once": lambda j: f"FnOnceObject::call_object_once(*f, {t[j]})", "box": lambda j: f"FnOnceObject::call_object_box(f, {t[j]})",
            "mut": lambda j: f"FnMutObject::call_object_mut(&mut *f, {t[j]})", "ref": lambda j: f"FnObject::call_object(&*f, {t[j]})",
            "dyn": lambda j: f"g.call_object_once({t[j]})", "dynmut": lambda j: f"g.call_object_mut({t[j]})", "dynref": lambda j: f"g.call_object({t[j]})"}[how]
    tr = {"dyn": "FnOnceObject", "dynmut": "FnMutObject", "dynref": "FnObject"}.get(how)
    at = tup(["String"] * k)
    rt = "String" if calls == 1 else tup(["String"] * calls)
    wrap.append(f"pub fn {name}({', '.join(ins)}) -> {rt} {{\n    let mut f = {la};")
    if tr:
        wrap.append(f"    let mut g: Box<dyn {tr}<{at}, Output = String>> = f;")
    for j in range(calls):
        wrap.append(f"    let r{j} = {call(j)};")
    wrap.append("    " + ("r0" if calls == 1 else tup(["r%d" % j for j in range(calls)])) + "\n}")


for mix, k in cases:
    n = ("".join(mix) or "none") + str(k)
    emit("once_" + n, mix, k, "String", 1, "once")
    emit("box_" + n, mix, k, "String", 1, "box")
    emit("mut_" + n, mix, k, "char", 3, "mut")
    if "m" not in mix:
        emit("ref_" + n, mix, k, "char", 2, "ref")
    if k == 1 and len(mix) in (1, 2):
        emit("dyn_" + n, mix, k, "String", 1, "dyn")
        emit("dynmut_" + n, mix, k, "char", 2, "dynmut")
        if "m" not in mix:
            emit("dynref_" + n, mix, k, "char", 2, "dynref")
emit("once_trailing", tuple("vr"), 1, "String", 1, "once", ",")
user.append("}\n")
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "witness", "lambda", "lib.rs")
open(p, "w").write("\n".join(out + user + wrap) + "\n")
