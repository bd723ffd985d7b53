"""Sample points: values of the free quantities of a path (lengths, counters, sizes) under which all its conditions hold. A condition
that the linear rules leave open is settled by exhibiting such a point; nothing is concluded when none is found."""
import itertools
from terms import *

BOOLS = ("implements",)
BITS = {"u8": 8, "i8": 8, "u16": 16, "i16": 16, "u32": 32, "i32": 32, "u64": 64, "i64": 64, "usize": 64, "isize": 64, "u128": 128, "i128": 128}


class Unknown(Exception):
    pass


def value(t, p):
    """The value of a term at a point; Unknown when a part of it is neither arithmetic nor a free quantity."""
    if t.op == "int":
        return t.a[0]
    v = p.get(t)
    if v is not None:
        return v
    if t.op == "lin":
        return t.a[0] + sum(c * value(x, p) for x, c in t.a[1])
    if t.op == "un" and t.a[0] == "Not":
        return 1 - value(t.a[1], p)
    if t.op == "cast":
        return value(t.a[-1], p)
    if t.op == "bin":
        o, a, b = t.a[0], value(t.a[1], p), value(t.a[2], p)
        if o == "Eq":
            return int(a == b)
        if o == "Lt":
            return int(a < b)
        if o == "Mul":
            return a * b
        if o in ("Div", "Rem"):
            if b == 0:
                raise Unknown(t)
            return a // b if o == "Div" else a % b
        if o == "BitAnd":
            return a & b
        if o == "BitOr":
            return a | b
        if o == "BitXor":
            return a ^ b
        if o in ("Shl", "Shr"):
            return a << b if o == "Shl" else a >> b
        raise Unknown(t)
    if t.op == "app":
        n, a = t.a
        if n == "min":
            return min(value(x, p) for x in a)
        if n == "max":
            return max(value(x, p) for x in a)
        if n in ("trunc", "wrapcast") and a[0].op == "str" and a[0].a[0] in BITS and not a[0].a[0].startswith("i"):
            return value(a[1], p) % (1 << BITS[a[0].a[0]])
    raise Unknown(t)


def atoms(t, free, out):
    """The free quantities of a term; False when something else occurs in it."""
    if t.op in ("int",):
        return True
    if free(t):
        out.add(t)
        return True
    if t.op == "lin":
        return all(atoms(x, free, out) for x, _ in t.a[1])
    if t.op in ("bin", "un", "cast"):
        return all(atoms(x, free, out) for x in t.a[1:] if isinstance(x, Term))
    if t.op == "app" and t.a[0] in ("min", "max", "trunc", "wrapcast"):
        return all(atoms(x, free, out) for x in t.a[1] if x.op != "str")
    return False


def constants(F):
    out = set()
    for t in F:
        for x in subterms(t):
            if x.op == "int" and x.a[0] > 2:
                out.add(x.a[0])
            elif x.op == "lin" and abs(x.a[0]) > 2:
                out.add(abs(x.a[0]))
            elif x.op == "app" and x.a[0] in ("trunc", "wrapcast") and x.a[1][0].op == "str":
                b = BITS.get(x.a[1][0].a[0])
                if b and b < 64:
                    out.add(1 << b)
    return out


def point(F, free, extra=(), bounds=None):
    """A point at which every fact {term: value | excluded values} holds, and the terms of `extra` are true; or None."""
    F = list(F.items()) + [(t, 1) for t in extra]
    at = set()
    for t, v in F:
        if not atoms(t, free, at):
            return None
    for t in list(at):
        if t.op == "app" and t.a[0] == "len" and t.a[1][0].op == "app" and t.a[1][0].a[0] == "chars":
            n = app("len", t.a[1][0].a[1][0])      # between a quarter and all of the bytes
            at.add(n)
            F += [(compare("Lt", n, t), 0), (compare("Lt", mul(num(4), t), n), 0)]
    at = sorted(at, key=lambda t: (show(t), t.h))
    if not at or len(at) > 6:
        return {} if not at and holds(F, {}) else None
    cs = constants([t for t, _ in F] + [num(x) for _, v in F if isinstance(v, frozenset) for x in v] + [num(v) for _, v in F if isinstance(v, int)])
    cand = sorted({0, 1, 2, 3} | {c + d for c in cs for d in (-1, 0, 1, 2)})
    cand = [c for c in cand if 0 <= c < 1 << 64][:40]
    if len(cand) ** len(at) > 300000:
        cand = cand[:max(2, int(300000 ** (1 / len(at))))]
    for vals in itertools.product(cand, repeat=len(at)):
        p = dict(zip(at, vals))
        if bounds and not all(bounds(a, x) for a, x in p.items()):
            continue
        if holds(F, p):
            return p
    return None


def holds(F, p):
    try:
        for t, v in F:
            w = value(t, p)
            if (w != v) if isinstance(v, int) else (w in v):
                return False
        return True
    except Unknown:
        return False


def differ(a, b, F, free):
    """A point at which the facts hold and two quantities differ."""
    return point(F, free, (neg(compare("Eq", a, b)),)) if a is not b else None


def tell(p):
    return ", ".join(f"{show(t)[:60]} = {v}" for t, v in p.items())
