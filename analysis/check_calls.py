"""Partial application and static pointers (C21), addresses (C06), delayed objects (C25)."""
from check_codec import context, pair_of, deref, strip, RESULT, pointee, understood
from common import *
from paths import positions, typestate
import re

FLAVOURS = {"FnOnceObject": ("call_object_once", "call_object_box"), "FnMutObject": ("call_object_mut",), "FnObject": ("call_object",),
            "FnOnce": ("call_once",), "FnMut": ("call_mut",), "Fn": ("call",)}
ALLCALLS = {n for v in FLAVOURS.values() for n in v}
CALLS = {"call_object_once", "call_object_box", "call_object_mut", "call_object"}


def calling(A):
    """Is this event a call of a callable object? With the stable API a method of a trait of the crate, with the nightly feature
    a call of the value itself."""
    def f(e):
        if e.kind != "call":
            return False
        if e.name == "<value>" or (e.key or "").startswith("core::ops::function::Fn"):
            return A.config == "nightly"
        return last(e.key) in CALLS and (A.db.defs.get(e.key) or {}).get("container") == "trait"
    return f


def called_with(e):
    """(what is called, the tuple of arguments) of such an event."""
    a = e.deep or e.args
    if e.name == "<value>":
        return a[0], mk("agg", "tuple", 0, tuple(a[1:]))
    return a[0], a[1]


def last(k):
    return (k or "").split("::")[-1]


def bound_types(A, rep):
    """{type path: (kind, index of the function, index of the bound argument)} from what the bind operations build."""
    out = {}
    db = A.db
    for t, ims in db.impls_by_trait.items():
        kind = {"BindValue": "value", "BindMut": "mut", "BindRef": "ref"}.get(last(t))
        if kind is None:
            continue
        for im in ims:
            for name, k, what, _ in im["items"]:
                if k not in db.bodies or not name.startswith("bind_"):
                    continue
                g = A.run(k)
                names = db.bodies[k].names_by_local
                me, head = (mk("sym", "arg", i, names.get(i, str(i))) for i in (1, 2))
                arity = len(im["args"][2][1]) if len(im["args"]) > 2 and im["args"][2][0] == "tuple" else "?"
                for p in positions(g, lambda e: e.kind == "ret"):
                    v = p.ev.deep[0]
                    sub_ = f"bind_{kind} with {arity} more"
                    if v.op != "agg" or not isinstance(v.a[0], tuple):
                        rep.oblige("Q1-bind", None, sub_, p.ev, f"gives {show(v)[:100]}")
                        continue
                    fs = list(v.a[2])
                    ok = me in fs and head in fs
                    rep.oblige("Q1-bind", ok or (False if all(x.op in ("sym", "int", "agg", "fld") for x in fs) else None), sub_, p.ev, f"gives {show(v)[:160]}")
                    if ok:
                        cur = (kind, fs.index(me), fs.index(head))
                        rep.oblige("Q1-bind", out.setdefault(v.a[0][1], cur) == cur, f"{last(v.a[0][1])} built the same way", p.ev, f"{cur} and {out[v.a[0][1]]}")
    return out


def single_call(g, is_call):
    """On every path to a return there is exactly one such call: True / (bad event, number)."""
    bad = []

    def trans(s, pos):
        e = pos.ev
        if is_call(e):
            return min(s + 1, 2)
        if e.kind == "ret":
            if s != 1:
                bad.append((e, s))
            return None
        if e.kind in ("diverge",):
            return None
        return s
    typestate(g, 0, trans)
    return bad


def selfval(A, k, g):
    """(the called object as a value, the argument tuple): the receiver may be a value, a reference or a box."""
    b = A.db.bodies[k]
    t = b.locals[1]
    me = mk("sym", "arg", 1, b.names_by_local.get(1, "1"))
    args = mk("sym", "arg", 2, b.names_by_local.get(2, "2"))
    if t[0] == "ref" or t[0] == "adt" and last(t[1]) == "Box":
        return deref(me), args, t
    return me, args, t


def check_bound(A, rep):
    db = A.db
    kinds = bound_types(A, rep)
    rep.anchor("partially applied types", kinds, 3)
    seen = {}
    for t, ims in db.impls_by_trait.items():
        fl = FLAVOURS.get(last(t))
        if fl is None:
            continue
        for im in ims:
            st, at = im["args"][0], im["args"][1] if len(im["args"]) > 1 else None
            if st[0] not in ("adt", "param"):
                continue
            if st[0] == "param":
                # what is callable is an object that can be called
                for name, k, what, _ in im["items"]:
                    if name in ALLCALLS and k in db.bodies:
                        forward_call(A, rep, k, f"{last(t)}::{name} for {tystr(st)}")
                        seen.setdefault(("blanket", name), set()).add(1)
                continue
            for name, k, what, _ in im["items"]:
                if name not in fl or k not in db.bodies:
                    continue
                if st[1] in kinds:
                    n = len(at[1]) if at and at[0] == "tuple" else None
                    seen.setdefault((kinds[st[1]][0], name), set()).add(n)
                    bound_call(A, rep, k, kinds[st[1]], n, f"{last(st[1])}::{name}/{n}")
                elif last(st[1]) == "StaticFn":
                    n = len(at[1]) if at and at[0] == "tuple" else None
                    seen.setdefault(("static", name), set()).add(n)
                    static_call(A, rep, k, n, f"StaticFn::{name}/{n}")
                else:
                    forward_call(A, rep, k, f"{last(st[1])}::{name}")
                    seen.setdefault(("forward", name), set()).add(last(st[1]))
    names = ("call_object_once", "call_object_box", "call_object_mut", "call_object")
    if A.config == "nightly":
        for name in names:
            rep.anchor(f"{name} of what can be called", seen.get(("blanket", name), ()), 1)
        names = ("call_once", "call_mut", "call")
    for kind in ("value", "mut", "ref", "static"):
        for name in names:
            if kind == "mut" and name in ("call_object", "call"):
                continue
            rep.anchor(f"{kind}: {name} by number of arguments", seen.get((kind, name), ()), 20)
    rep.anchor("forwarding callables", seen.get(("forward", names[0]), ()), 1)


def arguments(rep, rule, subj, got, want, ev, what):
    """The argument tuple, element by element."""
    if got.op == "agg" and got.a[0] == "tuple":
        els = list(got.a[2])
    elif len(want) == 0:
        els = []
    else:
        rep.oblige(rule, None, subj, ev, f"{what} are {show(got)[:160]}")
        return
    if len(els) != len(want):
        rep.oblige(rule, False, subj, ev, f"{len(els)} {what} instead of {len(want)}")
        return
    bad = [i for i, (a, w) in enumerate(zip(els, want)) if not w(a)]
    if not bad:
        rep.oblige(rule, True, subj, ev)
        return
    plain = all(x.op in ("fld", "sym", "&", "deref", "int", "ref") for i in bad for x in [els[i]])
    rep.oblige(rule, False if plain else None, subj, ev, f"argument {bad[0]} of {what} is {show(els[bad[0]])[:120]}")


def result_is(rep, rule, subj, g, calls):
    for p in positions(g, lambda e: e.kind == "ret"):
        v = p.ev.args[0]
        ok = any(v is c.ev.res for c in calls)
        rep.oblige(rule, ok or (False if v.op in ("int", "sym", "agg", "fld") else None), subj, p.ev, f"gives {show(v)[:120]} instead of the function's result")


def bound_call(A, rep, k, kind, n, subj):
    g = A.run(k)
    me, args, t = selfval(A, k, g)
    kd, fi, hi = kind
    func, head = mk("fld", me, None, fi), mk("fld", me, None, hi)
    iscall = calling(A)
    calls = positions(g, iscall)
    if g.incomplete:
        rep.oblige("Q2-call", None, subj, None, "not fully explored")
        return
    odd = single_call(g, iscall)
    if not odd:
        rep.oblige("Q2-call", True, subj)
    for e, s in odd:
        rep.oblige("Q2-call", None if A.config != "nightly" and any(x.kind == "call" and x.name == "<value>" for x in all_events(g)) else False, subj, e, f"the function is called {s if s < 2 else 'several'} times")
    for p in calls:
        e = p.ev
        a = called_with(e)
        f = strip(a[0]) if a[0].op in ("&", "pcast") else a[0]
        rep.oblige("Q2-function", True if f is func else False if f.op in ("fld", "sym", "deref") else None, subj, e, f"called is {show(a[0])[:100]}")
        first = (lambda x: x is head) if kd == "value" else (lambda x: x.op == "&" and x.a[0] is head and place_of(x, t))
        want = [first] + [lambda x, i=i: x is mk("fld", args, None, i) for i in range(n or 0)]
        arguments(rep, "Q2-arguments", subj, a[1], want, e, "the function's arguments")
    if calls:
        result_is(rep, "Q2-result", subj, g, calls)
    if t[0] == "ref" and not odd:
        # what a repeatedly callable function holds is there in the next call, but for what the function itself changed
        ip = Interp(A.db)
        for p in positions(g, lambda e: e.kind == "ret"):
            whole = ip.rootval(p.ev.state, ("obj", me.a[0]))
            for i, w, what in ((fi, func, "function"), (hi, head, "bound argument")):
                v = ip.pread(whole, ("f", i, None))
                ok = v is w or v.op == "hav" and any(v.a[0] is c.ev.res for c in calls)
                lost = understood(v) or not any(x is w or x.op in ("phi", "call", "hav", "fresh", "opaque", "moved") for x in subterms(v))
                rep.oblige("Q2-kept", ok or (False if lost else None), subj, p.ev, f"the {what} is {show(v)[:100]} after the call")


def place_of(x, t):
    """A reference to the bound argument itself, not to a copy of it."""
    r = x.a[1]
    if r.op != "ref":
        return r.op in ("sym", "app", "fld", "deref")
    if t[0] == "ref":
        # repeatedly callable: what the call changes in the argument must be there in the next one
        return r.a[0][0] not in ("L", "H", "T")
    return True


def static_call(A, rep, k, n, subj):
    g = A.run(k)
    me, args, t = selfval(A, k, g)
    iscall = lambda e: e.kind == "call" and e.name == "<value>"
    calls = positions(g, iscall)
    odd = single_call(g, iscall)
    if not odd:
        rep.oblige("Q3-call", True, subj)
    for e, s in odd:
        rep.oblige("Q3-call", False, subj, e, f"the pointer is called {s if s < 2 else 'several'} times")
    for p in calls:
        e = p.ev
        a = e.deep or e.args
        rep.oblige("Q3-function", True if only_from(a[0], me) else False, subj, e, f"called is {show(a[0])[:100]}")
        want = [lambda x, i=i: x is mk("fld", args, None, i) for i in range(n or 0)]
        arguments(rep, "Q3-arguments", subj, mk("agg", "tuple", 0, tuple(a[1:])), want, e, "the pointer's arguments")
    if calls:
        result_is(rep, "Q3-result", subj, g, calls)


def only_from(v, me):
    """The stored address, unchanged: casts and transmutes of one component of the object."""
    for _ in range(12):
        if v.op == "pcast":
            v = v.a[2]
        elif v.op == "app" and v.a[0] in ("transmute", "reinterp", "fnaddr", "fnptr_at", "ptr_at", "addr", "view"):
            ts = [x for x in v.a[1] if isinstance(x, Term) and x.op not in ("ty", "str", "unit", "agg")]
            if not ts:
                return False
            v = ts[-1] if v.a[0] != "reinterp" else v.a[1][1]
        else:
            break
    while v.op in ("fld", "deref"):
        if v is me:
            return True
        v = v.a[0]
    return v is me or v is me.a[0]


def forward_call(A, rep, k, subj):
    g = A.run(k)
    me, args, t = selfval(A, k, g)
    iscall = calling(A)
    calls = positions(g, iscall)
    odd = single_call(g, iscall)
    if not odd:
        rep.oblige("Q4-call", True, subj)
    for e, s in odd:
        rep.oblige("Q4-call", False, subj, e, f"the wrapped function is called {s if s < 2 else 'several'} times")
    for p in calls:
        e = p.ev
        a = called_with(e)
        rep.oblige("Q4-arguments", True if a[1] is args else False if a[1].op in ("agg", "fld", "sym") else None, subj, e, f"arguments are {show(a[1])[:120]}")
        f = strip(a[0]) if a[0].op in ("&", "pcast") else a[0]
        rep.oblige("Q4-function", True if any(x is me or x is me.a[0] for x in subterms(f)) else None, subj, e, f"called is {show(f)[:100]}")
    if calls:
        result_is(rep, "Q4-result", subj, g, calls)


# ------------------------------------------------------------------------------------------------ addresses
ADDR = {"addr", "fnaddr", "expose"}


def addresses(t):
    """Address terms in an integer value with their sign: [(sign, what)]."""
    out = []

    def walk(x, sign):
        if x.op == "lin":
            for u, c in lin_parts(x):
                walk(u, sign * (1 if c > 0 else -1))
        elif x.op == "app" and x.a[0] in ADDR:
            out.append((sign, x))
        elif x.op == "bin" and x.a[0] in ("Sub", "SubUnchecked"):
            walk(x.a[1], sign)
            walk(x.a[2], -sign)
        elif x.op == "bin" and x.a[0] in ("Add", "AddUnchecked", "BitXor", "BitOr"):
            walk(x.a[1], sign)
            walk(x.a[2], sign)
        elif x.op == "app" and x.a[0] == "transmute" and x.a[1][0].op == "ty" and x.a[1][0].a[0][0] in ("ptr", "ref", "fnptr"):
            out.append((sign, x))
        elif x.op == "agg":
            for y in x.a[2]:
                walk(y, sign)
    walk(t, 1)
    return out


def lin_parts(x):
    from terms import _linparts
    r = _linparts(x)
    parts = r[1] if isinstance(r, tuple) else r
    return list(parts.items()) if isinstance(parts, dict) else list(parts)


def image_base(t):
    """An address that lies in the program's own image in every process: a static or function of the crate."""
    x = t.a[1][-1] if t.op == "app" and t.a[0] in ADDR else t
    return any(y.op in ("fn", "static") or y.op == "sym" and "static" in str(y.a) or y.op == "app" and y.a[0] in ("fnaddr", "addr_of") and y.op == "fn"
               for y in subterms(x))


def is_intlike(ty):
    return ty is not None and ty[0] in ("int", "tuple", "array")


def check_addresses(A, rep):
    C = context(A)
    from codec import Ops
    relative = 0
    for ty, s, d, im in C.impls():
        if s is None:
            continue
        g = A.run(s, opaque=C.ops.opaque(frozenset()))
        me = mk("sym", "arg", 2, C.argname(s, 1))
        seen = {}
        for p in positions(g, lambda e: e.kind == "call"):
            if id(p.ev) in seen:
                continue
            seen[id(p.ev)] = 1
            tok = C.ops.token(p.ev, "ser", me)
            if tok is None or tok.kind not in ("emit", "raw") or tok.val is None:
                continue
            if tok.kind == "emit" and not is_intlike(tok.ty):
                continue
            ads = addresses(tok.val)
            plus, minus = [x for sgn, x in ads if sgn > 0], [x for sgn, x in ads if sgn < 0]
            if not ads:
                rep.oblige("A1-relative", True, tystr(ty), p.ev)
                continue
            ok = len(plus) == len(minus) and all(image_base(x) for x in minus)
            if len(plus) == len(minus) and not ok:
                okv = False if all(any(y.op == "ref" and y.a[0][0] in ("L", "H", "T") for y in subterms(x)) for x in minus) else None
            else:
                okv = ok
            rep.oblige("A1-relative", okv, tystr(ty), p.ev, f"{tystr(ty)}: sends {show(tok.val)[:160]}: an address that is not relative to the program image")
            relative += bool(ok)
    rep.anchor("addresses sent relative to the image", relative, 1)
    # the stored address is used as it is
    n = 0
    for k, dd in A.db.defs.items():
        st = dd.get("self_ty")
        if k not in A.db.bodies or not st or st[0] != "adt" or last(st[1]) not in ("StaticRef", "StaticFn") or not dd.get("local"):
            continue
        name, out = dd.get("name"), dd.get("output")
        ti = last((dd.get("trait_item") or "").rsplit("::", 1)[0])
        if dd.get("container") == "inherent" and dd.get("vis") == "Public" and name in ("get", "get_fn") or ti == "Deref" and name == "deref":
            g = A.run(k)
            me = selfval(A, k, g)[0]
            for p in positions(g, lambda e: e.kind == "ret"):
                n += 1
                w = only_from(p.ev.args[0], me)
                if not w and any(y.op == "call" for y in subterms(p.ev.args[0])):
                    w = None   # the address goes through something not understood
                rep.oblige("A2-use", w, f"{last(st[1])}::{name}", p.ev, f"gives {show(p.ev.args[0])[:120]}, not the stored address")
        elif dd.get("container") == "inherent" and dd.get("vis") == "Public" and name in ("new_unchecked", "new"):
            g = A.run(k)
            a1 = mk("sym", "arg", 1, A.db.bodies[k].names_by_local.get(1, "1"))
            for p in positions(g, lambda e: e.kind == "ret"):
                n += 1
                v = p.ev.deep[0]
                from_arg = [x for x in subterms(v) if x is a1]
                calls = [x for x in subterms(v) if x.op == "call"]
                # the address may come from the method that takes a function pointer's address
                arith = [x for x in subterms(v) if x.op in ("lin", "bin")]
                ok = bool(from_arg or any(a1 in set(y for z in positions(g, lambda e: e.kind == "call" and e.res is c) for w in z.ev.args for y in subterms(w)) for c in calls)) and not arith
                rep.oblige("A2-store", ok, f"{last(st[1])}::{name}", p.ev, f"stores {show(v)[:120]}, not the address given")
    rep.anchor("uses of stored addresses", n, 3)
    # the address of a function pointer is the pointer
    m = 0
    for t, ims in A.db.impls_by_trait.items():
        if last(t) != "FnPtr":
            continue
        for im in ims:
            for name, k, what, _ in im["items"]:
                if k in A.db.bodies and name == "addr":
                    g = A.run(k)
                    a1 = mk("sym", "arg", 1, A.db.bodies[k].names_by_local.get(1, "1"))
                    for p in positions(g, lambda e: e.kind == "ret"):
                        m += 1
                        rep.oblige("A3-address", only_from(p.ev.args[0], a1), f"addr of a function pointer", p.ev, f"gives {show(p.ev.args[0])[:120]}")
    rep.notes.append(f"{m} function pointer types")


# ------------------------------------------------------------------------------------------------ delayed
def check_delayed(A, rep):
    C = context(A)
    db = A.db
    op = C.ops.opaque(frozenset())
    adt = A.adt("Delayed")
    if not rep.anchor("delayed objects", adt):
        return
    new, de = A.method("Delayed", "new"), A.method("Delayed", "deserialize")
    ser = dser = None
    for ty, s, d, im in C.impls():
        if ty[0] == "adt" and ty[1] == adt:
            ser, dser = s, d
    if not rep.anchor("operations on delayed objects", [x for x in (new, de, ser, dser) if x], 4):
        return

    def variant(v, n=0):
        """Which form an object built has: the variant of the first enum inside, and its contents."""
        while v.op == "agg" and isinstance(v.a[0], tuple) and n < 4:
            a = db.adts.get(v.a[0][1])
            if a is not None and len(a["variants"]) > 1:
                return v.a[1], v.a[2]
            if not v.a[2]:
                return None
            v, n = v.a[2][0], n + 1
        return None

    # what new builds and what arrives
    g = A.run(new, opaque=op)
    a1 = mk("sym", "arg", 1, C.argname(new, 0))
    fresh = set()
    for p in positions(g, lambda e: e.kind == "ret"):
        w = variant(p.ev.deep[0])
        if w is None:
            rep.oblige("D1-new", None, "Delayed::new", p.ev, "form not resolved")
            continue
        fresh.add(w[0])
        rep.oblige("D1-new", list(w[1]) == [a1], "Delayed::new", p.ev, f"holds {show(p.ev.deep[0])[:120]}")
    g = A.run(dser, opaque=op)
    packed = set()
    for p in positions(g, lambda e: e.kind == "ret"):
        v = p.ev.deep[0]
        if v.op == "agg" and v.a[0] == RESULT and v.a[1] == 0:
            w = variant(v.a[2][0])
            if w is not None:
                packed.add(w[0])
    if not packed or not fresh:
        rep.oblige("D2-package", None, "Delayed", None, "forms not resolved")
        return
    rep.oblige("D2-package", not (fresh & packed), "Delayed", None, "an object that arrived has the same form as one that never travelled")
    # nothing inside is rebuilt on arrival: the value type is never read while reading the message
    T = db.bodies[dser].locals
    for p in positions(g, lambda e: e.kind == "call" and C.ops.keys.get(e.key, ("", ""))[1] in ("deserialize", "deserialize_self", "deserialize_self_non_trivial")):
        t = p.ev.targs[-1] if p.ev.targs else None
        rep.oblige("D3-opaque", not (t is not None and t[0] == "param"), "Delayed", p.ev, "the object is rebuilt as soon as it arrives")
    # rebuilding
    b = db.bodies[de]
    me = mk("sym", "arg", 1, b.names_by_local.get(1, "1"))
    g = A.run(de, opaque=op)

    def form(f):
        vs = [v for t, v in f.items() if t.op == "app" and t.a[0] == "variant" and any(x is me for x in subterms(t))]
        return vs[0] if len(vs) == 1 else None

    rets = 0
    for p in positions(g, lambda e: e.kind == "ret"):
        e = p.ev
        w = form(e.facts)
        rets += 1
        if w is None or isinstance(w, frozenset):
            rep.oblige("D4-rebuild", None, "Delayed::deserialize", e, "form not decided on this path")
            continue
        v = e.args[0]
        refused = w not in packed and v.op == "agg" and v.a[0] == RESULT and v.a[1] == 1
        rep.oblige("D4-refuse", w in packed or refused, "Delayed::deserialize", e, "an object that never travelled is not refused")
        if refused:
            continue
        if w not in packed:
            continue
        v = e.args[0]
        calls = positions(g, lambda x: x.kind == "call" and x.res is v)
        if not calls and v.op == "agg" and v.a[0] == RESULT:
            src = [x for x in subterms(v) if x.op == "call"]
            calls = positions(g, lambda x: x.kind == "call" and any(x.res is y for y in src))
        good = None
        for c in calls:
            k = C.ops.keys.get(c.ev.key, ("", ""))[1]
            if k not in ("deserialize", "deserialize_self", "deserialize_self_non_trivial"):
                continue
            src = strip((c.ev.deep or c.ev.args)[0])
            t = c.ev.targs[-1] if c.ev.targs else None
            mkd = positions(g, lambda x: x.kind == "call" and x.res is src and C.ops.keys.get(x.key) == ("Deserializer", "new"))
            good = bool(mkd) and t is not None and t[0] == "param"
            for m in mkd:
                a = m.ev.deep or m.ev.args
                own = all(x.op == "fld" and any(y is me for y in subterms(x)) for x in a)
                distinct = a[0] is not a[1]
                rep.oblige("D5-own", True if own and distinct else False if all(y.op in ("fld", "app", "agg") for y in a) else None, "Delayed::deserialize", m.ev,
                           f"rebuilt from {show(a[0])[:80]} and {show(a[1])[:80]}, not from its own bytes and handles")
                # the fields are those the reader filled: bytes and handles are told apart by their types
        rep.oblige("D4-rebuild", good, "Delayed::deserialize", e, f"gives {show(v)[:120]}")
    rep.anchor("paths of rebuilding", rets, 1)
    # sending one that arrived is refused
    g = A.run(ser, opaque=op)
    sv = deref(mk("sym", "arg", 1, C.argname(ser, 0)))
    for p in positions(g, lambda e: e.kind == "ret"):
        vs = [v for t, v in p.ev.facts.items() if t.op == "app" and t.a[0] == "variant" and any(x is sv for x in subterms(t))]
        w = vs[0] if len(vs) == 1 and isinstance(vs[0], int) else None
        rep.oblige("D6-refuse", None if w is None else w not in packed, "sending a delayed object", p.ev, "an object that arrived is sent on")


def check(A, rep, prop, tier):
    if prop == "C21":
        check_bound(A, rep)
    if prop == "C06":
        check_addresses(A, rep)
    if prop == "C25":
        check_delayed(A, rep)


RULES = {
    "C21": {
        "Q1-bind": "bind operations keep the function and the bound argument, each in its own field, in the same way at every arity",
        "Q2-call": "a partially applied function is called exactly once on every path", "Q2-function": "what is called is the wrapped function",
        "Q2-arguments": "bound argument first (value, or a reference to the stored one), then the call's arguments in order", "Q2-kept": "a repeatedly callable function holds the same function and bound argument after a call, but for what the function changed in them",
    "Q2-result": "the function's result is returned",
        "Q3-call": "a static function pointer is called exactly once", "Q3-function": "at the stored address", "Q3-arguments": "with its arguments in order", "Q3-result": "its result is returned",
        "Q4-call": "wrappers call what they wrap exactly once", "Q4-arguments": "with the same arguments", "Q4-function": "called is the wrapped object", "Q4-result": "its result is returned"},
    "C06": {"A1-relative": "no integer sent contains an address that is not taken relative to a static or function of the program image",
            "A2-use": "get/deref/get_fn use the stored address unchanged", "A2-store": "constructors store the address given", "A3-address": "the address of a function pointer is the pointer"},
    "C25": {"D1-new": "new keeps the value", "D2-package": "arrived and unsent objects have different forms", "D3-opaque": "reading the message does not rebuild the object",
            "D4-rebuild": "deserialize returns what reading the object's own package gives", "D4-refuse": "an object that never travelled is refused", "D5-own": "the package is the object's own bytes and handles",
            "D6-refuse": "an object that arrived is not sent on"},
}
EXPLAIN = {
    "C21": "Every implementation of the call traits for partially applied functions, wrappers, boxes and static pointers, at every arity, is evaluated symbolically: callee, arguments in order, result.",
    "C06": "Every value written by every implementation is searched for addresses; addresses must be differences against a static of the program image, and the reading side must invert exactly that.",
    "C25": "The forms of a delayed object, what its sender packs (order of operations on the nested serializer), and what rebuilding reads.",
}
