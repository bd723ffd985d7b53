"""Hash-consed symbolic terms used as abstract values.

op            args
int           (n)                       constants (bool/char/ints)
str/bytes     (python str / bytes)
sym           (name, ...)               an unknown input
ref           (root, proj)              address of a memory place; proj is a tuple
pcast         (type, ptr)               pointer reinterpreted at another pointee type
agg           (kind, variant, fields)   struct/enum/tuple/array/closure value
fld           (base, variant, idx)      component of an unknown value
call          (name, args, point)       result of an un-modelled call (point None: pure)
lin           (const, ((term, coef)..)) integer linear combination
bin/un/cast   operators
phi           (ctx, block, path)        unknown loop-carried value
fn            (key, args)               function item value
app           (name, args)              pure constructor/observer application
moved, uninit, unit
"""


class Term:
    __slots__ = ("op", "a", "h", "_roots", "_size")

    def __init__(self, op, a):
        self.op = op
        self.a = a
        self.h = hash((op,) + tuple(id(x) if isinstance(x, Term) else x for x in a))
        self._roots = None
        self._size = None

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return show(self)


_tab = {}


def mk(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = Term(op, a)
        _tab[k] = t
    return t


MOVED = mk("moved")
UNINIT = mk("uninit")
UNIT = mk("agg", "tuple", 0, ())


def num(n):
    return mk("int", int(n))


TRUE = num(1)
FALSE = num(0)


def is_int(t):
    return t.op == "int"


def _linparts(t):
    if t.op == "int":
        return t.a[0], {}
    if t.op == "lin":
        return t.a[0], dict(t.a[1])
    return 0, {t: 1}


def lin(c, parts):
    parts = {k: v for k, v in parts.items() if v != 0}
    if not parts:
        return num(c)
    if c == 0 and len(parts) == 1:
        (k, v), = parts.items()
        if v == 1:
            return k
    return mk("lin", c, tuple(sorted(parts.items(), key=lambda kv: (show(kv[0]), kv[0].h))))


def add(a, b, sign=1):
    c1, p1 = _linparts(a)
    c2, p2 = _linparts(b)
    p = dict(p1)
    for k, v in p2.items():
        p[k] = p.get(k, 0) + sign * v
    return lin(c1 + sign * c2, p)


def sub(a, b):
    return add(a, b, -1)


def mul(a, b):
    if a.op == "int":
        c, p = _linparts(b)
        return lin(c * a.a[0], {k: v * a.a[0] for k, v in p.items()})
    if b.op == "int":
        return mul(b, a)
    x, y = sorted((a, b), key=show)
    return mk("bin", "Mul", x, y)


def _truth(t):
    return t.op == "bin" and t.a[0] in ("Eq", "Lt", "Ne") or t.op == "un" and t.a[0] == "Not" or t.op == "bin" and t.a[0] in ("BitAnd", "BitOr") and _truth(t.a[1]) and _truth(t.a[2])


def binop(op, a, b):
    base = op.replace("WithOverflow", "").replace("Unchecked", "")
    if base == "Add":
        r = add(a, b)
    elif base == "Sub":
        r = sub(a, b)
    elif base == "Mul":
        r = mul(a, b)
    elif base in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
        return compare(base, a, b)
    elif base == "Div" and a.op == "int" and b.op == "int" and b.a[0] != 0:
        r = num(a.a[0] // b.a[0])
    elif base in ("Shl", "Shr") and a.op == "int" and b.op == "int" and 0 <= b.a[0] < 64 and a.a[0] >= 0 and (base == "Shr" or a.a[0] << b.a[0] < 1 << 64):
        r = num(a.a[0] << b.a[0] if base == "Shl" else a.a[0] >> b.a[0])
    elif base in ("BitAnd", "BitOr", "BitXor"):
        if a.op == "int" and b.op == "int":
            x, y = a.a[0], b.a[0]
            r = num(x & y if base == "BitAnd" else x | y if base == "BitOr" else x ^ y)
        elif base == "BitAnd" and (a is FALSE or b is FALSE):
            r = FALSE
        elif base == "BitAnd" and (a is TRUE and _truth(b) or b is TRUE and _truth(a)):
            r = b if a is TRUE else a
        elif base == "BitOr" and a is FALSE:
            r = b
        elif base == "BitOr" and b is FALSE:
            r = a
        else:
            x, y = sorted((a, b), key=lambda t: (show(t), t.h))
            r = mk("bin", base, x, y)
    else:
        r = mk("bin", base, a, b)
    return r


def compare(op, a, b, signed=False):
    if op == "Gt":
        return compare("Lt", b, a, signed)
    if op == "Ge":
        return neg(compare("Lt", a, b, signed))
    if op == "Le":
        return neg(compare("Lt", b, a, signed))
    if op == "Ne":
        return neg(compare("Eq", a, b))
    d = sub(a, b)
    if d.op == "int":
        return num(d.a[0] == 0 if op == "Eq" else d.a[0] < 0)
    if d.op == "lin" or a.op == "lin" or b.op == "lin":
        # both sides with positive coefficients only
        c, parts = _linparts(d)
        l = {k: v for k, v in parts.items() if v > 0}
        r = {k: -v for k, v in parts.items() if v < 0}
        a, b = lin(max(c, 0), l), lin(max(-c, 0), r)
    if op == "Lt" and not signed:
        # unsigned quantities: x < 1 is x == 0; 0 < x is x != 0
        if b.op == "int" and b.a[0] == 1:
            return compare("Eq", a, num(0))
        if a.op == "int" and a.a[0] == 0:
            return neg(compare("Eq", b, num(0)))
    if op == "Lt":
        return mk("bin", "Lt", a, b)
    if a.op == "agg" and b.op == "agg" and not a.a[2] and not b.a[2]:
        return num(a is b)
    if a.op == "int":
        a, b = b, a
    elif b.op != "int":
        # canonical: order by text
        if (show(a), a.h) > (show(b), b.h):
            a, b = b, a
    return mk("bin", "Eq", a, b)


def neg(t):
    if t.op == "int":
        return num(1 - t.a[0]) if t.a[0] in (0, 1) else mk("un", "Not", t)
    if t.op == "un" and t.a[0] == "Not":
        return t.a[1]
    return mk("un", "Not", t)


def tmin(a, b):
    if a is b:
        return a
    xs = []
    for t in (a, b):
        if t.op == "app" and t.a[0] == "min":
            xs.extend(t.a[1])
        else:
            xs.append(t)
    xs = sorted(set(xs), key=lambda t: (show(t), t.h))
    ints = [x for x in xs if x.op == "int"]
    if len(ints) > 1:
        m = min(ints, key=lambda x: x.a[0])
        xs = [x for x in xs if x.op != "int"] + [m]
        xs = sorted(xs, key=lambda t: (show(t), t.h))
    if len(xs) == 1:
        return xs[0]
    if num(0) in xs and all(nonneg(x) for x in xs):
        return num(0)
    return mk("app", "min", tuple(xs))


def nonneg(t):
    """Machine quantities are unsigned; sums of them with non-negative parts are not negative."""
    if t.op == "int":
        return t.a[0] >= 0
    if t.op == "lin":
        return t.a[0] >= 0 and all(c > 0 for _, c in t.a[1])
    return True


def app(name, *args):
    return mk("app", name, tuple(args))


def agg(kind, variant, fields):
    return mk("agg", kind, variant, tuple(fields))


def tup(*f):
    return agg("tuple", 0, f)


def show(t, d=0):
    if not isinstance(t, Term):
        return str(t)
    if t._size is not None:
        return t._size
    s = _show(t)
    t._size = s
    return s


def _ts(t):
    from mirdb import tystr
    return tystr(t)


def _kindname(k):
    if isinstance(k, str):
        return k
    if k[0] == "adt":
        return k[1].split("::")[-1]
    if k[0] in ("closure", "coroutine"):
        return k[0] + "@" + "::".join(k[1].split("::")[-3:])
    return k[0]


def _show(t):
    o, a = t.op, t.a
    if o == "int":
        return str(a[0])
    if o in ("str", "bytes"):
        return repr(a[0])
    if o == "sym":
        return "$" + ".".join(str(x) for x in a)
    if o == "ref":
        return "&" + showroot(a[0]) + "".join(showproj(p) for p in a[1])
    if o == "agg":
        if a[0] == "tuple":
            return "(" + ", ".join(show(x) for x in a[2]) + ")"
        v = f"#{a[1]}" if a[1] not in (None, 0) or (isinstance(a[0], tuple) and a[0][0] == "adt" and a[0][1].split("::")[-1] in ("Option", "Result", "Poll", "ControlFlow")) else ""
        return _kindname(a[0]) + v + "{" + ", ".join(show(x) for x in a[2]) + "}"
    if o == "fld":
        v = f"#{a[1]}" if a[1] is not None else ""
        return show(a[0]) + v + "." + str(a[2])
    if o == "lin":
        s = " + ".join((f"{c}*" if c != 1 else "") + show(k) for k, c in a[1])
        if a[0]:
            s += f" + {a[0]}"
        return "(" + s + ")"
    if o == "bin":
        return f"{a[0]}({show(a[1])}, {show(a[2])})"
    if o == "un":
        return f"{a[0]}({show(a[1])})"
    if o == "call":
        nm = "::".join(a[0].split("::")[-2:])
        p = "" if a[2] is None else "@" + showpoint(a[2])
        return f"{nm}{p}(" + ", ".join(show(x) for x in a[1]) + ")"
    if o == "app":
        return f"{a[0]}(" + ", ".join(show(x) for x in a[1]) + ")"
    if o == "phi":
        return "phi" + "_".join(str(x) for x in a[0]) + ":" + showroot(a[1]) + "".join("." + (str(x) if isinstance(x, int) else showproj(x)) for x in a[2])
    if o == "hav":
        return f"after({show(a[0])},{a[1]})"
    if o == "with":
        return show(a[0]) + "{" + ", ".join(showproj(q) + "=" + show(x) for q, x in a[1]) + "}"
    if o == "upd":
        return show(a[0]) + "{" + showproj(a[1]) + "=" + show(a[2]) + "}"
    if o == "discr":
        return "discr(" + show(a[0]) + ")"
    if o == "ty":
        return "<" + _ts(a[0]) + ">"
    if o == "pcast":
        return f"({_ts(a[0])}=>{_ts(a[1])}){show(a[2])}"
    if o == "fn":
        return "fn:" + "::".join(a[0].split("::")[-2:])
    if o == "&":
        return "&" + show(a[0])
    return o + ("(" + ", ".join(show(x) for x in a) + ")" if a else "")


def showpoint(p):
    return "/".join(str(x) for x in p)


def showroot(r):
    if r[0] == "L":
        return f"L{r[1]}_{r[2]}"
    if r[0] in ("obj", "val"):
        return f"[{show(r[1])}]"
    if r[0] in ("H", "T"):
        return f"{r[0]}{r[1]}_{r[2]}"
    return "/".join(str(x) for x in r)


def showproj(p):
    if p[0] == "f":
        return f".{p[1]}" if p[2] is None else f".{p[1]}#{p[2]}"
    return f".{p[0]}" + "".join(":" + (show(x) if isinstance(x, Term) else str(x)) for x in p[1:])


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, Term):
            if x in seen:
                continue
            seen.add(x)
            stack.extend(x.a)
        elif isinstance(x, tuple):
            stack.extend(x)
    return seen


def rewrite(t, f, memo=None):
    """Bottom-up rewriting. f(term) -> term or None."""
    if memo is None:
        memo = {}

    def go(x):
        if isinstance(x, Term):
            r = memo.get(x)
            if r is None:
                na = tuple(go(y) for y in x.a)
                y = rebuild(x.op, na) if na != x.a else x
                z = f(y)
                r = y if z is None else z
                memo[x] = r
            return r
        if isinstance(x, tuple) and x and not isinstance(x[0], str):
            return tuple(go(y) for y in x)
        if isinstance(x, tuple) and any(isinstance(y, Term) for y in x):
            return tuple(go(y) if isinstance(y, Term) else y for y in x)
        return x
    return go(t)


def rebuild(op, a):
    if op == "lin":
        r = num(a[0])
        for k, c in a[1]:
            r = add(r, mul(num(c), k))
        return r
    if op == "bin":
        return binop(a[0], a[1], a[2])
    if op == "un" and a[0] == "Not":
        return neg(a[1])
    if op == "app" and a[0] == "min":
        r = a[1][0]
        for x in a[1][1:]:
            r = tmin(r, x)
        return r
    if op == "fld" and a[0].op == "agg":
        if a[2] < len(a[0].a[2]):
            return a[0].a[2][a[2]]
    return mk(op, *a)
