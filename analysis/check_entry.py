"""Entry points: the part of C18 that the main attribute decides. What the attribute makes of a witness crate with entry points of
every form is analysed; the functions of the witness's module `user` stand for what the user writes into main."""
from common import *
from check_derive import short_error
from paths import positions, typestate
from terms import subterms

W = "witness_entry"
RULES = {"C18": {
    "M1-first": "Initialization is the first thing that an entry point marked with the attribute does: nothing of the user's and no runtime comes before it.",
    "M2-once": "Behind it the user's code is run exactly once on every way to the end.",
    "M3-result": "What the user's code returns is what the entry point returns.",
}}


def check(A0, rep, prop, tier):
    f, err = witness("entry")
    if f is None and f"could not compile `{W}`" not in err:
        raise BuildFailure(err)
    if f is None:
        rep.oblige("M0-compiles", False, "witness", None, "an entry point that the attribute accepted no longer compiles: " + short_error(err), key="M0-compiles:witness-entry")
        return
    rep.oblige("M0-compiles", True, "witness")
    A = Analysis([f] + [os.path.join(BUILD, "dump", x) for x in ("crossmist.json", "models.json")])
    n = 0
    for k in sorted(A.db.bodies):
        if k.startswith(W + "::") and k.endswith("::main") and k.count("::") == 2:
            n += entry(A, rep, k)
    rep.anchor("entry points marked with the attribute", n, 12)
    A0.functions |= A.functions
    A0.states += A.states


def entry(A, rep, k):
    name = k.split("::")[1]
    is_init = lambda e: e.kind == "call" and (e.key or "").startswith("crossmist::") and e.key.endswith("::init")
    is_user = lambda e: e.kind == "call" and (e.key or "").startswith(W + "::user::")
    g = A.run(k, opaque=lambda short, key, targs: key.startswith(W + "::user::") or key.startswith("crossmist::") and key.endswith("::init"), deep=60)
    if g.incomplete:
        rep.oblige("M1-first", None, name, None, str(g.incomplete[0])[:200])
        return 1
    early, odd, count, results = {}, {}, {}, []

    def trans(s, pos):
        init, user = s
        e = pos.ev
        if is_init(e):
            return True, user
        if not init and e.kind in ("call", "io", "lock", "suspend", "fd_adopt"):
            crate = (e.key or str(e.name)).split("::")[0].lstrip("<")
            if is_user(e) or crate not in ("core", "alloc", "std"):
                early.setdefault(str(e.name), e)
            elif crate == "std":
                odd.setdefault(str(e.name), e)
        if is_user(e):
            return init, min(user + 1, 2)
        if e.kind == "ret":
            if not init:
                early.setdefault("return", e)
            if user != 1:
                count.setdefault(user, e)
        return init, user
    typestate(g, (False, 0), trans)
    calls = [p.ev for p in positions(g, is_user)]
    rets = [p.ev for p in positions(g, lambda e: e.kind == "ret")]
    if not calls:
        rep.oblige("M1-first", None, name, None, "no call of the user's code recognised")
        return 1
    for what, e in early.items():
        rep.oblige("M1-first", False, f"{name}: {what}", e, f"{name}: {what} comes before initialization: a child runs it too")
    for what, e in odd.items():
        rep.oblige("M1-first", None, f"{name}: {what}", e, "something of the standard library runs before initialization")
    if not early and not odd:
        rep.oblige("M1-first", True, name)
    for c, e in count.items():
        rep.oblige("M2-once", False, name, e, f"{name}: the user's code is run {'more than once' if c else 'not at all'}")
    if not count:
        rep.oblige("M2-once", True if rets or "never" in name else None, name)
    if count or A.db.defs.get(calls[0].key, {}).get("output") == ("tuple", ()):
        return 1
    for e in rets:
        v = e.args[0] if e.args else None
        ok = v is not None and any(v is c.res for c in calls)
        rep.oblige("M3-result", ok or (None if v is None or any(x is c.res for x in subterms(v) for c in calls) else False), name, e,
                   f"{name}: the result is not that of the user's code")
    return 1

