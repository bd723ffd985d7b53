"""Evaluation of path facts under an assumed outcome of a call (a scenario)."""
from terms import *
from terms import _linparts


def ev(t, sc):
    """Value of a term in a scenario: an int, ("agg", variant, (values)), or None if the scenario does not determine it."""
    v = sc(t)
    if v is not None:
        return v
    o = t.op
    if o == "int":
        return t.a[0]
    if o == "agg":
        return ("agg", t.a[1], tuple(ev(x, sc) for x in t.a[2]))
    if o == "&":
        return ev(t.a[0], sc)
    if o == "fld":
        b = ev(t.a[0], sc)
        if isinstance(b, tuple) and t.a[2] < len(b[2]):
            return b[2][t.a[2]]
        return None
    if o == "app":
        if t.a[0] == "variant":
            b = ev(t.a[1][0], sc)
            return b[1] if isinstance(b, tuple) else None
        if t.a[0] in ("and", "or"):
            vs = [ev(x, sc) for x in t.a[1]]
            stop = 0 if t.a[0] == "and" else 1
            return stop if stop in vs else None if None in vs else 1 - stop
        return None
    if o == "un" and t.a[0] == "Not":
        x = ev(t.a[1], sc)
        return None if not isinstance(x, int) else 1 - x if x in (0, 1) else None
    if o == "bin":
        a, b = ev(t.a[1], sc), ev(t.a[2], sc)
        op = t.a[0]
        if op in ("BitAnd", "BitOr"):
            if op == "BitAnd" and (a == 0 or b == 0):
                return 0
            if isinstance(a, int) and isinstance(b, int):
                return a & b if op == "BitAnd" else a | b
            return None
        if op in ("Eq", "Ne") and isinstance(a, tuple) and isinstance(b, tuple):
            e = same(a, b)
            return None if e is None else int(e == (op == "Eq"))
        if not isinstance(a, int) or not isinstance(b, int):
            return None
        f = dict(Eq=lambda: a == b, Ne=lambda: a != b, Lt=lambda: a < b, Le=lambda: a <= b, Gt=lambda: a > b, Ge=lambda: a >= b,
                 Shl=lambda: a << b, Shr=lambda: a >> b, BitXor=lambda: a ^ b, Mul=lambda: a * b, Rem=lambda: a % b if b else None,
                 Div=lambda: a // b if b else None).get(op)
        return None if f is None else (lambda r: None if r is None else int(r))(f())
    if o == "lin":
        c, p = _linparts(t)
        for x, k in p.items():
            v = ev(x, sc)
            if not isinstance(v, int):
                return None
            c += k * v
        return c
    if o == "cast":
        return ev(t.a[-1], sc)
    return None


def same(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, tuple) and isinstance(b, tuple):
        if a[1] != b[1]:
            return False
        r = True
        for x, y in zip(a[2], b[2]):
            e = same(x, y)
            if e is False:
                return False
            if e is None:
                r = None
        return r
    return None


def possible(facts, sc, about):
    """True / False / None: may a path with these facts happen in the scenario? None: a fact about one of the terms
    `about` cannot be evaluated."""
    unk = False
    for t, v in facts.items():
        x = ev(t, sc)
        if isinstance(x, tuple):
            x = x[1]
        if x is None:
            if any(s in about for s in subterms(t)):
                unk = True
            continue
        if isinstance(v, int):
            if x != v:
                return False
        elif x in v:
            return False
    return None if unk else True


def RES(ok, *vals):
    return ("agg", 0 if ok else 1, tuple(vals) if vals else (None,))


def SOME(v=None):
    return ("agg", 1, (v,))


NONE = ("agg", 0, ())
