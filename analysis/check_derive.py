"""Derived implementations of the object trait: C02.

The derive is a program that writes programs; what it writes is analysed. A witness crate holds every kind of data type the
derive accepts (structs and enums of every shape, generics, constants, discriminants, equal types, clashing names, many
variants). It is compiled against the current tree, and each implementation that the derive wrote is compared, encoder against
decoder, as those of the library are.
"""
from common import *
import check_codec
from codec import *


def dead_shape(p):
    return p.ends == 0


def check(A0, rep, prop, tier):
    f, err = witness("derive")
    if f is None and "could not compile `witness_derive`" not in err:
        raise BuildFailure(err)
    if f is None:
        # the crate itself compiled; something the derive must accept no longer compiles
        rep.oblige("K-compiles", False, "witness", None, "a data type that the derive accepted no longer compiles with it: " + short_error(err), key="K-compiles:witness")
        return
    rep.oblige("K-compiles", True, "witness")
    A = Analysis([f] + [os.path.join(BUILD, "dump", x) for x in ("crossmist.json", "models.json")])
    C = check_codec.context(A)
    n = ends = 0
    for ty, s, d, im in C.impls():
        if not (s or "").startswith("witness_derive::") or d is None:
            continue
        name = "::".join(ty[1].split("::")[1:]) if ty[0] == "adt" else tystr(ty)
        p = check_codec.pair_of(A, ty, s, d)
        n += 1
        ends += p.ends
        nv = len(A.db.adts[ty[1]]["variants"]) if ty[0] == "adt" and ty[1] in A.db.adts else 1
        bad = [r for r in p.reports if r[1] is False]
        und = [r for r in p.reports if r[1] is None]
        if not bad and not und:
            rep.oblige("K-variants", p.ends >= nv, name, None, f"{name}: only {p.ends} of {nv} variants are rebuilt")
        if not [r for r in bad if r[0] != "writes"]:
            rep.oblige("K-lockstep", True if p.ends else None, f"{name}: {p.ends} pairs of complete paths, {p.pairs} pairs of operations")
        for kind, ok, what, ev in p.reports:
            rep.oblige("K-" + kind, ok, name, ev, f"{name}: {what}")
    rep.anchor("derived implementations compared", n, 40)
    rep.anchor("complete pairs of paths", ends, 300)
    rep.notes.append(f"{n} derived implementations, {ends} variants")
    A0.functions |= A.functions
    A0.states += A.states


def short_error(err):
    """The first complaint of the compiler."""
    ls = err.splitlines()
    for i, l in enumerate(ls):
        if l.startswith("error"):
            return " ".join(x.strip() for x in ls[i:i + 6])[:500]
    return err[-400:]


RULES = {"C02": dict({k: t for k, t in check_codec._K.items() if k not in ("K-numbering", "K-remember", "K-remember-value", "K-identity", "K-constructor", "K-complete")},
                     **{"K-compiles": "every data type of the witness crate compiles with the derive",
                        "K-writes": "the writer does not refuse any value", "K-variants": "every variant has a complete pair of writing and reading paths"})}
EXPLAIN = {"C02": "The implementations that the derive produces for a witness crate covering every kind of data type (unit, tuple and named shapes, empty ones, generics with bounds, where clauses and "
                  "constants, explicit and negative discriminants, equal types, recursive types, names that clash with the derive's own, 260 variants, handles and shared objects) are analysed: the two sides of each are "
                  "walked in lockstep with symbolic values, as for C01. The quantifier over data types is covered by kinds of shape, that over values and type parameters is decided."}
