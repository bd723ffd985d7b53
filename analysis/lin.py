"""Small decision procedure for unsigned linear facts: no search beyond sums of two known facts."""
from terms import *
from terms import _linparts, nonneg


def known(facts):
    """Quantities known to be >= 0 from a fact table {term: int | frozenset(excluded)}."""
    out = []
    for t, v in facts.items():
        if t.op == "bin" and t.a[0] == "Lt" and isinstance(v, int):
            a, b = t.a[1], t.a[2]
            out.append(add(sub(b, a), num(-1)) if v else sub(a, b))
        elif t.op == "bin" and t.a[0] == "Eq" and v == 1:
            a, b = t.a[1], t.a[2]
            out.append(sub(a, b))
            out.append(sub(b, a))
        elif isinstance(v, int) and not (t.op == "bin" or t.op == "un"):
            out.append(sub(t, num(v)))
            out.append(sub(num(v), t))
        elif isinstance(v, frozenset) and 0 in v and t.op != "bin":
            out.append(add(t, num(-1)))
    return out


def mins(d):
    c, p = _linparts(d)
    for t, k in p.items():
        if t.op == "app" and t.a[0] == "min":
            return t, k
    return None


def nonneg_by(d, kn, depth=0):
    """d >= 0?"""
    if d.op == "int":
        return d.a[0] >= 0
    m = mins(d)
    if m is not None and depth < 6:
        t, k = m
        rest = sub(d, mul(num(k), t))
        alts = [nonneg_by(add(rest, mul(num(k), x)), kn + ([sub(x, t)] if False else []), depth + 1) for x in t.a[1]]
        if (all(alts) if k > 0 else any(alts)):
            return True
    if nonneg(d):
        return True
    for g in kn:
        if nonneg(sub(d, g)):
            return True
    if depth < 2:
        for i, g in enumerate(kn):
            r = sub(d, g)
            for h in kn[i:]:
                if nonneg(sub(r, h)):
                    return True
    return False


def le(a, b, facts):
    return nonneg_by(sub(b, a), known(facts))


def eq(a, b, facts):
    if a is b:
        return True
    kn = known(facts)
    d = sub(a, b)
    return nonneg_by(d, kn) and nonneg_by(sub(num(0), d), kn)


def truth(t, facts):
    """Known boolean value of a term under the facts (None: unknown)."""
    if t.op == "int":
        return t.a[0]
    v = facts.get(t)
    if isinstance(v, int):
        return v
    if t.op == "un" and t.a[0] == "Not":
        x = truth(t.a[1], facts)
        return None if x is None else 1 - x
    if t.op == "bin" and t.a[0] in ("BitAnd", "BitOr"):
        a, b = truth(t.a[1], facts), truth(t.a[2], facts)
        if t.a[0] == "BitAnd":
            return 0 if (a == 0 or b == 0) else 1 if (a == 1 and b == 1) else None
        return 1 if (a == 1 or b == 1) else 0 if (a == 0 and b == 0) else None
    if t.op == "bin" and t.a[0] == "Eq":
        if eq(t.a[1], t.a[2], facts):
            return 1
        if t.a[2].op == "int" and isinstance(facts.get(t.a[1]), frozenset) and t.a[2].a[0] in facts[t.a[1]]:
            return 0
        d = sub(t.a[1], t.a[2])
        kn = known(facts)
        if nonneg_by(add(d, num(-1)), kn) or nonneg_by(add(sub(num(0), d), num(-1)), kn):
            return 0
        return None
    if t.op == "bin" and t.a[0] == "Lt":
        if le(add(t.a[1], num(1)), t.a[2], facts):
            return 1
        if le(t.a[2], t.a[1], facts):
            return 0
    return None


def with_true(facts, t, v=1):
    """Facts extended by t == v (conjunctions split)."""
    f = dict(facts)
    st = [(t, v)]
    while st:
        x, w = st.pop()
        if x.op == "un" and x.a[0] == "Not":
            st.append((x.a[1], 1 - w))
        elif x.op == "bin" and x.a[0] == "BitAnd" and w == 1:
            st += [(x.a[1], 1), (x.a[2], 1)]
        elif x.op == "bin" and x.a[0] == "BitOr" and w == 0:
            st += [(x.a[1], 0), (x.a[2], 0)]
        elif x.op == "bin" and x.a[0] == "Eq" and x.a[2].op == "int":
            if w == 1:
                f[x.a[1]] = x.a[2].a[0]
            else:
                o = f.get(x.a[1])
                f[x.a[1]] = (o if isinstance(o, frozenset) else frozenset()) | {x.a[2].a[0]} if not isinstance(o, int) else o
            f[x] = w
        elif x.op == "cast":
            st.append((x.a[-1], w))
        else:
            f[x] = w
    return f
