"""Closures: C23. What the lambda macro makes of a witness crate with every mix of captures is analysed; the functions of the
witness's module `user` stand for the closure's body and are opaque."""
from common import *
from check_codec import strip
from check_derive import short_error
from check_func import value
from paths import positions, typestate
import re

W = "witness_lambda"
TIMES = {"once": 1, "box": 1, "mut": 3, "ref": 2}


def check(A0, rep, prop, tier):
    f, err = witness("lambda")
    if f is None and f"could not compile `{W}`" not in err:
        raise BuildFailure(err)
    if f is None:
        rep.oblige("K-compiles", False, "witness", None, "a closure that the macro accepted, or a use of one, no longer compiles: " + short_error(err), key="K-compiles:witness-lambda")
        return
    rep.oblige("K-compiles", True, "witness")
    A = Analysis([f] + [os.path.join(BUILD, "dump", x) for x in ("crossmist.json", "models.json")])
    n = caps = 0
    for k in sorted(A.db.bodies):
        m = re.fullmatch(W + r"::(once|box|mut|ref)_([a-z]+?)(\d*)", k)
        if m is None:
            continue
        n += 1
        caps += closure(A, rep, k, TIMES[m.group(1)])
    rep.anchor("closures analysed", n, 150)
    rep.anchor("captures traced", caps, 300)
    rep.notes.append(f"{n} closures, {caps} captures traced")
    A0.functions |= {re.sub(r"_?0x[0-9a-f]+", "", x) for x in A.functions}
    A0.states += A.states


def closure(A, rep, k, times):
    name = k.split("::")[-1]
    body = f"{W}::user::{name}"
    is_user = lambda e: e.kind == "call" and (e.key or "").startswith(W + "::user::")
    g = A.run(k, opaque=lambda short, key, targs: key.startswith(W + "::user::"), deep=60)
    b, u = A.db.bodies[k], A.db.bodies[body]
    if g.incomplete:
        rep.oblige("B0-explored", None, name, None, str(g.incomplete[0])[:200])
        return 0
    calls = positions(g, is_user)
    if not calls:
        rep.oblige("B1-called", None, name, None, "no call of the body recognised")
        return 0
    mine = [mk("sym", "arg", i, b.names_by_local.get(i, str(i))) for i in range(1, b.argc + 1)]
    caps = [i for i in range(u.argc) if u.names_by_local.get(i + 1, "c").startswith("c")]
    tail = u.argc - len(caps)
    bad = []

    def trans(s, pos):
        e = pos.ev
        if is_user(e):
            return min(s + 1, times + 1)
        if e.kind == "ret":
            if s != times:
                bad.append((e, s))
            return None
        return None if e.kind == "diverge" else s
    typestate(g, 0, trans)
    rep.oblige("B1-called", not bad, name, bad[0][0] if bad else None, f"{times} calls of the closure run its body {bad[0][1]} times" if bad else "")
    # the calls in order of their own arguments (each wrapper is a straight line)
    order = []
    for p in calls:
        if all(p.ev is not q for q in order):
            order.append(p.ev)
    rep.oblige("B1-body", all(e.key == body for e in order), name, order[0], "another closure's body is run")
    if len(order) != times:
        rep.oblige("B2-captures", None, name, None, f"{len(order)} call sites for {times} calls")
        return 0
    prev = {}
    done = 0
    for j, e in enumerate(order):
        a = list(e.deep or e.args)
        if len(a) != u.argc:
            rep.oblige("B2-captures", False, name, e, f"the body gets {len(a)} values instead of {u.argc}")
            continue
        for i in caps:
            t = u.locals[i + 1]
            x = a[i]
            if t[0] == "ref" and t[1] and j and prev.get(i) is not None:
                # what the body made of the variable in the previous call
                y = value(x)
                ok = y is mk("hav", prev[i], i)
                rep.oblige("B2-kept", ok or (False if y in mine or y.op == "hav" else None), f"{name}, capture {i + 1}", e, f"call {j + 1} sees {show(y)[:100]}, not what the previous call left")
            else:
                y = value(x) if t[0] == "ref" else x
                ok = y is mine[i]
                rep.oblige("B2-captures", ok or (False if y.op in ("sym", "fld", "int", "hav") else None), f"{name}, capture {i + 1}", e, f"capture {i + 1} is {show(x)[:100]}")
            prev[i] = e.res
            done += 1
        want = mine[len(caps) + j * tail: len(caps) + (j + 1) * tail]
        got = a[len(caps):]
        w = [i for i in range(tail) if got[i] is not want[i]]
        rep.oblige("B3-arguments", not w or (False if all(got[i].op in ("sym", "fld", "int") for i in w) else None), f"{name}, call {j + 1}", e, f"argument {w[0] + 1} is {show(got[w[0]])[:100]}" if w else "")
    for p in positions(g, lambda e: e.kind == "ret"):
        v = p.ev.deep[0]
        got = [v] if times == 1 else list(v.a[2]) if v.op == "agg" and v.a[0] == "tuple" else None
        if got is None or len(got) != times:
            rep.oblige("B4-result", None, name, p.ev, f"gives {show(v)[:100]}")
            continue
        w = [i for i in range(times) if got[i] is not order[i].res]
        rep.oblige("B4-result", not w or (False if all(got[i].op in ("sym", "call", "int", "fld") for i in w) else None), name, p.ev, f"gives {show(v)[:100]}" if w else "")
    return done


RULES = {"C23": {
    "K-compiles": "every closure of the witness crate and every use of it compiles, also as a trait object",
    "B1-called": "each call runs the body exactly once on every path", "B1-body": "this closure's body",
    "B2-captures": "each captured variable arrives by value or by reference to the closure's own copy, in the order of the capture list",
    "B2-kept": "a variable captured by mutable reference is seen in later calls as the earlier call left it",
    "B3-arguments": "followed by the call's arguments in order", "B4-result": "the call gives the body's result"}}
EXPLAIN = {"C23": "What the lambda macro makes of a witness crate is analysed with symbolic captures and arguments: all 40 mixes of up to three captures by value, mutable and shared reference, with none to two arguments, and "
                  "longer ones up to eight captures and seven arguments, each consumed, consumed in a box, called three times mutably and twice by shared reference where its captures allow it."}
