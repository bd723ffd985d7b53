"""Encoding and decoding of values: C01, C04, C05, C06, C07, C25 (and the groundwork for C02, C03).

Two layers. The primitives of Serializer / Deserializer and of the blanket implementation of the object
trait are checked against what they mean (by the state they leave behind); every implementation of the
object trait is then checked in terms of these primitives, by comparing its writing and its reading side in
lockstep (codec.py).
"""
from codec import *
from common import *
from paths import positions, growth

KNOWN = {"concat", "rawbytes", "rawimg", "new", "add", "add_front", "from_bytes", "sub", "elem", "view", "len", "implements", "size_of", "model", "mapget",
         "contains", "variant", "with_capacity", "addr_of", "upd", "align_of"}


def understood(t):
    """Only operations with a known meaning on the operands: a different term is a different value."""
    for x in subterms(t):
        if x.op in ("phi", "call", "hav", "fresh", "opaque", "moved", "uninit"):
            return False
        if x.op == "app" and x.a[0] not in KNOWN:
            return False
    return True


def pieces(t):
    """A byte string as the list of what it is made of."""
    if t.op == "app" and t.a[0] == "concat":
        return pieces(t.a[1][0]) + pieces(t.a[1][1])
    if t.op == "app" and t.a[0] in ("new", "with_capacity"):
        return []
    if t.op == "agg" and t.a[0] == "array" and not t.a[2]:
        return []
    return [t]


def pointee(p):
    if p.op == "&":
        return p.a[0]
    return deref(p)


def is_image(t, T, value):
    """All bytes of a value of type T."""
    if not (t.op == "app" and t.a[0] == "rawbytes"):
        return False
    ty, p, n = t.a[1]
    return ty is mk("ty", T) and n is app("size_of", mk("ty", T)) and (pointee(p) is value)


class Prims:
    """Roles of the private fields of Serializer and Deserializer, by their types, and the meaning of the primitives."""

    def __init__(self, A, C):
        self.A, self.C, self.ops = A, C, C.ops
        self.out = []
        db = A.db

        def roles(adt, tests):
            k = A.adt(adt)
            r = {}
            if k is None:
                return None
            for i, f in enumerate(db.adts[k]["variants"][0]["fields"]):
                for role, test in tests.items():
                    if test(f[1]):
                        r.setdefault(role, []).append(i)
            return {x: v[0] for x, v in r.items() if len(v) == 1}

        path = lambda t: t[1].split("::")[-1] if t[0] == "adt" else ""
        isvec = lambda t: path(t) == "Vec"
        self.s = roles("Serializer", dict(
            data=lambda t: isvec(t) and t[2][0] == ("int", "u8"),
            handles=lambda t: isvec(t) and path(t[2][0]) in ("BorrowedFd", "BorrowedHandle", "RawFd"),
            ids=lambda t: path(t) in ("HashMap", "BTreeMap"),
            count=lambda t: t == ("int", "usize")))
        self.d = roles("Deserializer", dict(
            data=lambda t: isvec(t) and t[2][0] == ("int", "u8"),
            handles=lambda t: path(t) in ("IntoIter", "VecDeque"),
            pos=lambda t: t == ("int", "usize"),
            objs=lambda t: isvec(t) and path(t[2][0]) == "Option"))

    def put(self, group, name, ok, detail, ev=None):
        self.out.append((group, name, ok, detail, ev))

    def judge(self, group, name, ok, terms, detail, ev):
        """ok, or wrong when everything involved is understood, or undecided."""
        if ok is not True:
            ok = False if all(understood(t) for t in terms) else None
        self.put(group, name, ok, detail, ev)
        return ok

    def graph(self, key):
        return self.A.run(key, opaque=self.nontrivial)

    def nontrivial(self, short, key, targs):
        return self.ops.keys.get(key, ("",))[0] == "NonTrivialObject"

    def after(self, e, root):
        """What an object given by reference holds on return."""
        ip = self.ip
        return ip.rootval(e.state, ("obj", root))

    def field(self, v, i):
        return self.ip.pread(v, ("f", i, None))

    def run(self):
        ops = self.ops
        from interp import Interp
        self.ip = Interp(self.A.db)
        for adt, roles, need in (("Serializer", self.s, ("data", "handles", "ids", "count")), ("Deserializer", self.d, ("data", "handles", "pos", "objs"))):
            if roles is None or any(x not in roles for x in need):
                self.put("data", adt, None, "fields of unexpected types: primitives not checked")
                return self.out
        bodies = [(v, k) for k, v in ops.keys.items() if k in self.A.db.bodies and v[0] in ("Serializer", "Deserializer", "Object")
                  and self.A.db.defs[k].get("container") != "trait"]
        for (adt, n), k in sorted(bodies):
            f = getattr(self, f"{adt.lower()}_{n}", None)
            if f is None:
                continue
            try:
                g = self.graph(k)
                if g.incomplete:
                    self.put("data", f"{adt}::{n}", None, "not fully explored")
                rets = [p.ev for p in positions(g, lambda e: e.kind == "ret")]
                if not rets:
                    self.put("data", f"{adt}::{n}", False, "never returns")
                f(k, g, rets)
            except Exception as e:   # a shape this lemma cannot read
                self.put("data", f"{adt}::{n}", None, f"not understood: {type(e).__name__}: {e}")
        return self.out

    def arg(self, key, i):
        return mk("sym", "arg", i + 1, self.C.argname(key, i))

    # ---- writing side
    def serializer_new(self, k, g, rets):
        for e in rets:
            v = e.deep[0]
            empty = lambda t: t.op == "app" and t.a[0] in ("new", "with_capacity")
            for role, group in (("data", "data"), ("handles", "handles"), ("ids", "ids")):
                x = self.field(v, self.s[role])
                self.judge(group, "Serializer::new", empty(x), [x], f"a new serializer starts with {role} = {show(x)[:80]}", e)
            x = self.field(v, self.s["count"])
            self.judge("ids", "Serializer::new", x is num(0), [x], f"numbering starts at {show(x)[:80]}", e)

    def kept(self, group, name, base, fin, roles, but, e):
        for r, i in roles.items():
            if r not in but:
                x = self.field(fin, i)
                self.judge({"handles": "handles", "ids": "ids", "count": "ids", "objs": "ids"}.get(r, group), name, x is mk("fld", base, None, i), [x],
                           f"{r} becomes {show(x)[:120]}", e)

    def serializer_write(self, k, g, rets):
        me, data = self.arg(k, 0), self.arg(k, 1)
        base = deref(me)
        for e in rets:
            fin = self.after(e, me)
            x = self.field(fin, self.s["data"])
            self.judge("data", "Serializer::write", pieces(x) == [mk("fld", base, None, self.s["data"]), deref(data)], [x], f"after write the data is {show(x)[:200]}", e)
            self.kept("data", "Serializer::write", base, fin, self.s, ("data",), e)

    def pod(self, e, T):
        t = app("implements", mk("str", "PlainOldData"), mk("ty", T))
        for x, w in e.facts.items():
            if x.op == "app" and x.a[0] == "implements" and "PlainOldData" in show(x):
                return w if w in (0, 1) else None
        return None

    def writer(self, name, k, g, rets, me, value, T):
        """Plain data is appended as its raw image; anything else is encoded by its own code, once."""
        base = deref(me)
        for e in rets:
            fin = self.after(e, me)
            p = self.pod(e, T)
            if p == 1:
                x = self.field(fin, self.s["data"])
                q = pieces(x)
                ok = len(q) == 2 and q[0] is mk("fld", base, None, self.s["data"]) and is_image(q[1], T, value)
                self.judge("data", name, ok, [x], f"the data becomes {show(x)[:200]}", e)
                self.kept("data", name, base, fin, self.s, ("data",), e)
            elif p == 0:
                ok = fin.op == "hav" and self.own_code(fin.a[0], g, T, value, me)
                self.judge("data", name, ok, [fin], f"the serializer becomes {show(fin)[:200]}", e)
            else:
                self.judge("data", name, None, [], "neither plain data nor not", e)
        self.once(name, g, "serialize_self_non_trivial")

    def own_code(self, call, g, T, value, me, argno=0):
        for p in positions(g, lambda e: e.kind == "call" and e.res is call):
            v = self.ops.keys.get(p.ev.key)
            if v and v[1] == "serialize_self_non_trivial" and p.ev.targs and p.ev.targs[0] == T:
                return strip((p.ev.deep or p.ev.args)[0]) is value
        return None

    def once(self, name, g, what):
        """Called at most once on every path, only when the type is not plain."""
        for p in positions(g, lambda e: e.kind == "call" and self.ops.keys.get(e.key, ("", ""))[1] == what):
            inv = self.pod(p.ev, None) if p.ev.facts else None
            if inv == 1:
                self.put("data", name, False, f"{what} for plain data", p.ev)

    def tparam(self, g):
        for n in positions(g, lambda e: e.kind == "call" and self.ops.keys.get(e.key, ("", ""))[0] == "NonTrivialObject"):
            if n.ev.targs:
                return n.ev.targs[0]
        return None

    def serializer_serialize(self, k, g, rets):
        self.writer("Serializer::serialize", k, g, rets, self.arg(k, 0), deref(self.arg(k, 1)), self.tparam(g))

    def object_serialize_self(self, k, g, rets):
        self.writer("Object::serialize_self", k, g, rets, self.arg(k, 1), deref(self.arg(k, 0)), self.tparam(g))

    def object_serialize_slice(self, k, g, rets):
        self.slices("Object::serialize_slice", k, g, rets, self.arg(k, 1), self.arg(k, 0))

    def serializer_serialize_slice(self, k, g, rets):
        self.slices("Serializer::serialize_slice", k, g, rets, self.arg(k, 0), self.arg(k, 1))

    def slices(self, name, k, g, rets, me, data):
        base, T = deref(me), self.tparam(g)
        calls = positions(g, lambda e: e.kind == "call" and self.ops.keys.get(e.key, ("", ""))[1] == "serialize_self_non_trivial")
        seq = deref(data)
        n = app("len", seq)
        for e in rets:
            fin = self.after(e, me)
            p = self.pod(e, T)
            if p == 1:
                x = self.field(fin, self.s["data"])
                q = pieces(x)
                ok = len(q) == 2 and q[0] is mk("fld", base, None, self.s["data"]) and q[1].op == "app" and q[1].a[0] == "rawbytes"
                if ok:
                    ty, ptr, size = q[1].a[1]
                    ok = pointee(ptr) is seq and size in [mk("bin", "Mul", *o) for sz in (app("size_of", mk("ty", T)),) for o in ((n, sz), (sz, n))] \
                        or size.op == "app" and size.a[0] == "size_of_val" and size.a[1][0] is data
                    if not ok and pointee(ptr) is seq:
                        ok = self.product(size, n, app("size_of", mk("ty", T)))
                self.judge("data", name, ok, [x], f"the data becomes {show(x)[:200]}", e)
                self.kept("data", name, base, fin, self.s, ("data",), e)
            elif p == 0:
                ok = self.each(g, fin, calls, seq, n, base, me, e)
                self.put("data", name, ok, f"the elements are not each encoded once in order ({show(fin)[:100]})", e)
            else:
                self.put("data", name, None, "neither plain data nor not", e)

    @staticmethod
    def product(size, a, b):
        """Is a number of bytes the product of two quantities?"""
        want = mul(a, b)
        if size is want:
            return True
        if differ(size, want, {}, lambda t: t in (a, b)) is not None:
            return False
        s = set(subterms(size))
        return (size.op in ("app", "bin", "lin") and a in s and b in s and not any(x.op in ("call", "lin") for x in s)) or None

    def each(self, g, fin, calls, seq, n, base, me, e):
        """The serializer after the loop: base, then one call per element in order."""
        if fin is base:
            from lin import truth as tr
            return True if e.facts.get(n) == 0 else None
        if fin.op != "phi" or not calls:
            return None
        init, back = growth(g, fin)
        if any(x is not base for x in init) or not back:
            return None
        for b in back:
            if b is None:
                return None
            if b is fin:
                return False
            if b.op != "hav":
                return None
            c = [p.ev for p in calls if p.ev.res is b.a[0]]
            if not c:
                return None
            c = c[0]
            v = strip((c.deep or c.args)[0])
            if not (v.op == "app" and v.a[0] == "elem" and v.a[1][0] is seq):
                return None
            idx = v.a[1][1]
            # offset from the counter that controls the loop
            ph = [x for x in subterms(idx) if x.op == "phi"]
            if len(ph) != 1:
                return None
            i0, ib = growth(g, ph[0])
            first = [rewrite(idx, lambda x: y if x is ph[0] else None) for y in i0 if y is not None]
            step = [sub(y, ph[0]) for y in ib if y is not None]
            if any(s.op != "int" for s in step + first) or not step:
                return None
            if any(s.a[0] != 1 for s in step) or any(x.a[0] != 0 for x in first):
                return False
            # the loop ends at the length
            lt = compare("Lt", idx, n)
            from lin import truth
            w = truth(lt, e.facts)
            if w is None:
                # some number of elements that leaves the loop too early
                free = lambda t: t in (ph[0], n)
                w = 1 if point({t: v for t, v in e.facts.items() if any(x in (ph[0], n) for x in subterms(t))}, free, (lt,)) is not None else None
            if w == 1:
                return False
            if w is None:
                return None
        return True

    def serializer_serialize_temporary(self, k, g, rets):
        me, value = self.arg(k, 0), self.arg(k, 1)
        base, name = deref(me), "Serializer::serialize_temporary"
        T = self.tparam(g)
        D, H, I, N = (self.s[x] for x in ("data", "handles", "ids", "count"))
        calls = [p.ev for p in positions(g, lambda e: e.kind == "call" and self.ops.keys.get(e.key, ("", ""))[1] == "serialize_self_non_trivial")]
        for e in rets:
            fin = self.after(e, me)
            p = self.pod(e, T)
            x, cnt = self.field(fin, D), self.field(fin, N)
            q = pieces(x)
            if p == 1:
                ok = len(q) == 2 and q[0] is mk("fld", base, None, D) and is_image(q[1], T, value)
                self.judge("data", name, ok, [x], f"the data becomes {show(x)[:200]}", e)
                self.kept("data", name, base, fin, self.s, ("data",), e)
            elif p == 0:
                if fin.op == "hav" and any(c.res is fin.a[0] for c in calls):
                    # encoded straight into this serializer
                    self.put("data", name, self.own_code(fin.a[0], g, T, value, me), "the value is encoded in place", e)
                    continue
                nested = [c for c in calls if len(q) == 2 and q[1] is mk("fld", mk("hav", c.res, 1), None, D)]
                ok = len(q) == 2 and q[0] is mk("fld", base, None, D) and bool(nested) and strip((nested[0].deep or nested[0].args)[0]) is value
                self.put("data", name, ok or (False if understood(x) or len(q) == 1 and q[0] is mk("fld", base, None, D) else None), f"the data becomes {show(x)[:200]}", e)
                if not nested:
                    continue
                c = nested[0]
                inner = strip((c.deep or c.args)[1])
                after = mk("hav", c.res, 1)
                st = self.field(inner, N)
                self.judge("ids", name, st is mk("fld", base, None, N), [st], f"numbering of a temporary starts at {show(st)[:100]}", c)
                self.put("ids", name, True if cnt is mk("fld", after, None, N) else False if cnt is mk("fld", base, None, N) or understood(cnt) else None,
                         f"after a temporary numbering continues at {show(cnt)[:100]}", e)
                hl = app("len", mk("fld", after, None, H))
                hf = self.field(fin, H)
                none = e.facts.get(hl) == 0
                self.put("handles", name, True if none else (None if hf is not mk("fld", base, None, H) else False),
                         "handles inside a temporary are lost without a trace", e)
                self.judge("handles", name, hf is mk("fld", base, None, H), [hf], f"handles become {show(hf)[:120]}", e)
                mi = self.field(fin, I)
                # addresses inside a temporary must not be remembered: they may be reused
                self.judge("ids", name, mi is mk("fld", base, None, I), [mi], f"the identities become {show(mi)[:120]}", e)
            else:
                self.put("data", name, None, "neither plain data nor not", e)

    def serializer_serialize_handle(self, k, g, rets):
        me, h = self.arg(k, 0), self.arg(k, 1)
        base, name = deref(me), "Serializer::serialize_handle"
        for e in rets:
            fin = self.after(e, me)
            x = self.field(fin, self.s["handles"])
            ok = x.op == "app" and x.a[0] == "add" and x.a[1][1] is mk("fld", base, None, self.s["handles"]) and x.a[1][2] is h
            self.judge("handles", name, ok, [x], f"the handles become {show(x)[:200]}", e)
            self.kept("handles", name, base, fin, self.s, ("handles",), e)

    def serializer_drain_handles(self, k, g, rets):
        me = self.arg(k, 0)
        base = deref(me)
        for e in rets:
            x = e.args[0]
            self.judge("handles", "Serializer::drain_handles", x is mk("fld", base, None, self.s["handles"]), [x], f"gives {show(x)[:200]}", e)

    def serializer_into_vec(self, k, g, rets):
        me = self.arg(k, 0)
        for e in rets:
            x = e.args[0]
            self.judge("data", "Serializer::into_vec", x is mk("fld", me, None, self.s["data"]), [x], f"gives {show(x)[:200]}", e)

    @staticmethod
    def merges(key, ptr):
        """A key made of an address by an operation that gives the addresses of several objects the same result. (Shared objects lie
        at least 16 bytes apart, in the lower 2^47 bytes.)"""
        def const(x):
            if x.op == "int":
                return x.a[0]
            if x.op == "un" and x.a[0] in ("Not", "BitNot") and const(x.a[1]) is not None:
                return ~const(x.a[1])
            return None
        addr = lambda x: any(y is ptr for y in subterms(x))
        places = ((1 << 47) - 1) & ~15
        for x in subterms(key):
            if x.op == "app" and x.a[0] == "trunc" and addr(x.a[1][1]):
                return True
            if x.op == "bin" and addr(x.a[1]) != addr(x.a[2]):
                c, right = const(x.a[2] if addr(x.a[1]) else x.a[1]), addr(x.a[1])
                if c is not None and (x.a[0] == "BitAnd" and ~c & places or x.a[0] == "BitOr" and c & places
                                      or right and (x.a[0] == "Shr" and c > 4 or x.a[0] == "Div" and c > 16 or x.a[0] == "Rem" and c < 1 << 47)):
                    return True
        return False

    def serializer_learn_cyclic(self, k, g, rets):
        me, ptr = self.arg(k, 0), self.arg(k, 1)
        base, name = deref(me), "Serializer::learn_cyclic"
        ids, cnt = mk("fld", base, None, self.s["ids"]), mk("fld", base, None, self.s["count"])
        for e in rets:
            fin = self.after(e, me)
            v = e.deep[0]
            i, c = self.field(fin, self.s["ids"]), self.field(fin, self.s["count"])
            if not (v.op == "agg" and v.a[0] == OPTION):
                self.put("ids", name, None, f"gives {show(v)[:100]}", e)
                continue
            if v.a[1] == 0:
                ok = i.op == "app" and i.a[0] == "add" and i.a[1][1] is ids and i.a[1][2].op == "agg" and i.a[1][2].a[2][0] is ptr
                if not ok and i.op == "app" and i.a[0] == "add" and i.a[1][2].op == "agg" and self.merges(i.a[1][2].a[2][0], ptr):
                    self.put("ids", name, False, f"two different objects are recorded as the same: {show(i.a[1][2].a[2][0])[:120]}", e)
                    continue
                self.judge("ids", name, ok, [i], f"a new object is recorded as {show(i)[:160]}", e)
                if ok:
                    w = i.a[1][2].a[2][1]
                    self.judge("ids", name, w is add(cnt, num(1)), [w], f"a new object gets the number {show(w)[:120]}", e)
                self.judge("ids", name, c is add(cnt, num(1)), [c], f"the count becomes {show(c)[:120]}", e)
                known = e.facts.get(app("contains", ids, ptr))
                self.put("ids", name, {0: True, 1: False}.get(known), "reported as new without looking", e)
            else:
                w = v.a[2][0]
                ok = w.op == "app" and w.a[0] == "mapget" and w.a[1][0] is ids and w.a[1][1] is ptr
                self.judge("ids", name, ok, [w], f"a known object is given the number {show(w)[:120]}", e)
                self.judge("ids", name, c is cnt and (i is ids), [c, i], f"a known object changes the records to {show(i)[:100]} / {show(c)[:60]}", e)
            self.kept("ids", name, base, fin, self.s, ("ids", "count"), e)

    # ---- reading side
    def deserializer_new(self, k, g, rets):
        data, handles = self.arg(k, 0), self.arg(k, 1)
        name = "Deserializer::new"
        for e in rets:
            v = e.deep[0]
            x = self.field(v, self.d["data"])
            self.judge("data", name, x is data, [x], f"reads from {show(x)[:100]}", e)
            x = self.field(v, self.d["pos"])
            self.judge("data", name, x is num(0), [x], f"starts reading at {show(x)[:100]}", e)
            x = self.field(v, self.d["objs"])
            self.judge("ids", name, x.op == "app" and x.a[0] in ("new", "with_capacity"), [x], f"starts with the objects {show(x)[:100]}", e)
            x = self.field(v, self.d["handles"])
            ok = x is handles or x.op == "agg" and len(x.a[2]) >= 3 and x.a[2][0] is handles and x.a[2][1] is num(0) and x.a[2][2] is app("len", handles)
            self.judge("handles", name, ok, [x], f"starts with the handles {show(x)[:100]}", e)

    def deserializer_read(self, k, g, rets):
        me, buf = self.arg(k, 0), self.arg(k, 1)
        base, name = deref(me), "Deserializer::read"
        n, pos = app("len", deref(buf)), mk("fld", base, None, self.d["pos"])
        for e in rets:
            fin, out = self.after(e, me), self.after(e, buf)
            want = app("sub", mk("fld", base, None, self.d["data"]), pos, add(pos, n))
            self.judge("data", name, out is want, [out], f"the buffer becomes {show(out)[:160]}", e)
            x = self.field(fin, self.d["pos"])
            self.judge("data", name, x is add(pos, n), [x], f"the position becomes {show(x)[:160]}", e)
            self.kept("data", name, base, fin, self.d, ("pos",), e)

    def reader(self, name, k, g, rets, value):
        me = self.arg(k, 0)
        base, T = deref(me), self.tparam(g)
        sz, pos = app("size_of", mk("ty", T)), mk("fld", base, None, self.d["pos"])
        img = app("sub", mk("fld", base, None, self.d["data"]), pos, add(pos, sz))
        for e in rets:
            fin = self.after(e, me)
            p = self.pod(e, T)
            v = value(e)
            if p == 1:
                ok = v is not None and v.op == "app" and v.a[0] == "from_bytes" and v.a[1][0] is mk("ty", T) and v.a[1][1] is img and v.a[1][2] is sz
                self.judge("data", name, ok, [v] if v is not None else [UNINIT], f"plain data is rebuilt as {show(v)[:200] if v is not None else 'an error'}", e)
                x = self.field(fin, self.d["pos"])
                self.judge("data", name, x is add(pos, sz), [x], f"the position becomes {show(x)[:160]}", e)
                self.kept("data", name, base, fin, self.d, ("pos",), e)
            elif p == 0:
                ok = fin.op == "hav" and any(q.ev.targs and q.ev.targs[0] == T for q in positions(g, lambda x: x.kind == "call" and x.res is fin.a[0]))
                self.judge("data", name, ok, [fin], f"the deserializer becomes {show(fin)[:160]}", e)
                if ok:
                    r = fin.a[0]
                    if v is None:
                        w = e.facts.get(app("variant", r))
                        self.put("data", name, True if w == 1 else False if w == 0 else None, "an error although the value was read", e)
                    else:
                        self.judge("data", name, v is r or v is mk("fld", r, 0, 0), [v], f"the value read becomes {show(v)[:160]}", e)
            else:
                self.put("data", name, None, "neither plain data nor not", e)

    @staticmethod
    def okval(e):
        v = e.deep[0]
        if v.op == "agg" and v.a[0] == RESULT:
            return v.a[2][0] if v.a[1] == 0 else None
        return v

    def deserializer_deserialize(self, k, g, rets):
        self.reader("Deserializer::deserialize", k, g, rets, self.okval)

    def object_deserialize_self(self, k, g, rets):
        self.reader("Object::deserialize_self", k, g, rets, self.okval)

    def object_deserialize_on_heap(self, k, g, rets):
        name = "Object::deserialize_on_heap"

        def val(e):
            v = e.args[0]
            if not (v.op == "agg" and v.a[0] == RESULT):
                return UNINIT
            if v.a[1] == 1:
                return None
            p = v.a[2][0]
            while p.op == "pcast":
                p = p.a[2]
            if p.op == "ref" and p.a[0][0] == "H":
                x = self.ip.read(e.state, p.a[0], p.a[1])
                self.put("heap", name, x is not MOVED or False, "the memory handed out holds nothing", e)
                return x
            bad = p.op == "ref" and p.a[0][0] == "L"
            what = f"hands out {show(p)[:100]}, not memory of its own"
            for q in positions(g, lambda x: x.kind == "call" and x.name.split("::")[-1] in ("into_raw", "leak") and x.res is not None):
                t = (q.ev.targs or (None,))[0]
                r = q.ev.res
                while r.op == "pcast":
                    r = r.a[2]
                if r is p and t is not None and not self.same_layout(t, self.tparam(g)):
                    bad, what, e = True, f"hands out memory requested for {tystr(t)}, to be released as memory of the type read", q.ev
            self.put("heap", name, False if bad else None, what, e)
            return UNINIT
        self.reader(name, k, g, rets, val)
        # the memory handed out is not released
        for e in rets:
            v = e.args[0]
            if v.op == "agg" and v.a[0] == RESULT and v.a[1] == 0:
                p = v.a[2][0]
                while p.op == "pcast":
                    p = p.a[2]
                for q in positions(g, lambda x: x.kind == "drop"):
                    if q.ev.args and q.ev.args[0] is p:
                        self.put("heap", name, False, "the memory handed out is released", q.ev)

    @staticmethod
    def same_layout(t, T):
        """t is requested and released exactly as T is."""
        while t[0] == "adt" and t[1].split("::")[-1] in ("MaybeUninit", "ManuallyDrop", "UnsafeCell") and t[2]:
            t = t[2][0]
        if t == T:
            return True
        # memory for bytes or for a list of something is not memory for T
        return not (t[0] in ("int", "slice", "array") or (t[0] == "adt" and t[1].split("::")[-1] == "Vec"))

    def deserializer_reserve_cyclic(self, k, g, rets):
        me = self.arg(k, 0)
        base, name = deref(me), "Deserializer::reserve_cyclic"
        objs = mk("fld", base, None, self.d["objs"])
        for e in rets:
            fin = self.after(e, me)
            x = self.field(fin, self.d["objs"])
            ok = x.op == "app" and x.a[0] == "add" and x.a[1][1] is objs and x.a[1][2].op == "agg" and x.a[1][2].a[1] == 0
            self.judge("ids", name, ok, [x], f"the objects become {show(x)[:160]}", e)
            v = e.deep[0]
            self.judge("ids", name, v is add(app("len", objs), num(1)), [v], f"the number reserved is {show(v)[:120]}", e)
            self.kept("ids", name, base, fin, self.d, ("objs",), e)

    def filled(self, name, fin, base, index, obj, e, reserved=False):
        objs = mk("fld", base, None, self.d["objs"])
        x = self.field(fin, self.d["objs"])
        y = x
        if y.op != "upd":
            self.judge("ids", name, None if reserved and y.op == "app" and y.a[0] == "add" and y.a[1][2].op == "agg" and y.a[1][2].a[1] == 1 else False, [x],
                       f"the objects become {show(x)[:160]}", e)
            return
        p, val = y.a[1], y.a[2]
        ok = p[0] == "i" and p[1] is index
        self.judge("ids", name, ok, [p[1]] if p[0] == "i" else [UNINIT], f"stored under the index {show(p[1]) if p[0] == 'i' else '?'}", e)
        z = y
        while z.op == "upd":
            if z.a[1] != p:
                self.put("ids", name, False, "another object is overwritten", e)
            z = z.a[0]
        want = app("add", mk("str", "Vec"), objs, agg(OPTION, 0, ())) if reserved else objs
        self.judge("ids", name, z is want, [z], f"the objects become {show(z)[:160]}", e)
        v = self.ip.deep(e.state, val)
        good = any(t is obj for t in subterms(v)) if v.op == "agg" and v.a[1] == 1 else False
        self.put("ids", name, good or (False if v.op == "agg" and v.a[1] == 0 else None), f"what is stored is {show(v)[:120]}", e)

    def deserializer_fill_cyclic(self, k, g, rets):
        me, cid, obj = self.arg(k, 0), self.arg(k, 1), self.arg(k, 2)
        base = deref(me)
        for e in rets:
            fin = self.after(e, me)
            self.filled("Deserializer::fill_cyclic", fin, base, sub(cid, num(1)), obj, e)
            self.kept("ids", "Deserializer::fill_cyclic", base, fin, self.d, ("objs",), e)

    def deserializer_learn_cyclic(self, k, g, rets):
        me, obj = self.arg(k, 0), self.arg(k, 1)
        base = deref(me)
        for e in rets:
            fin = self.after(e, me)
            self.filled("Deserializer::learn_cyclic", fin, base, app("len", mk("fld", base, None, self.d["objs"])), obj, e, reserved=True)
            self.kept("ids", "Deserializer::learn_cyclic", base, fin, self.d, ("objs",), e)

    def deserializer_get_cyclic(self, k, g, rets):
        me, cid = self.arg(k, 0), self.arg(k, 1)
        base = deref(me)
        objs = mk("fld", base, None, self.d["objs"])
        want = app("elem", objs, sub(cid, num(1)))
        for e in rets:
            v = e.deep[0]
            calls = [x for x in subterms(v) if x.op == "call" and "downcast" in str(x.a[0])]
            ts = set()
            for c in calls:
                for p in positions(g, lambda x: x.kind == "call" and x.res is c):
                    for a in (p.ev.deep or p.ev.args):
                        ts |= set(subterms(a))
            els = [t for t in ts | set(subterms(v)) if t.op == "app" and t.a[0] == "elem" and t.a[1][0] is objs]
            ok = True if els and all(t is want for t in els) else False if els else None
            self.put("ids", "Deserializer::get_cyclic", ok, f"gives {show(els[0])[:100] if els else show(v)[:100]}", e)
            self.kept("ids", "Deserializer::get_cyclic", base, self.after(e, me), self.d, (), e)


# ------------------------------------------------------------------------------------------------------------
def context(A):
    if not hasattr(A, "_codecs"):
        C = Codecs(A)
        A._codecs = C
        A._prims = Prims(A, C).run()
        A._pairs = {}
    return A._codecs


def pair_of(A, ty, s, d):
    C = context(A)
    if (s, d) not in A._pairs:
        try:
            A._pairs[s, d] = C.pair(s, d, tystr(ty), ty=ty)
        except Exception as e:
            p = Pair.__new__(Pair)
            p.reports = [("shape", None, f"not understood: {type(e).__name__}: {e}", None)]
            p.pairs = p.ends = p.loops = 0
            A._pairs[s, d] = p
    return A._pairs[s, d]


def family(A, ty):
    """Which guarantee an implementation serves."""
    n = ty[1].split("::")[-1] if ty[0] == "adt" else ty[0]
    if n in ("Rc", "Arc"):
        return "shared"
    if n in ("OwnedFd", "OwnedHandle", "File", "Sender", "Receiver", "Duplex", "UnixStream", "UnixSeqpacket") or n.endswith("Stream"):
        return "handle"
    if n in ("RelocatablePtr", "StaticRef", "StaticFn") or ty[0] in ("fnptr", "fn"):
        return "static"
    if n == "Box":
        return "box"
    if n == "Delayed":
        return "delayed"
    if ty[0] == "adt" and ty[1].split("::")[0] == "crossmist":
        return "local"
    return "std"


GROUPS = {
    "C01": dict(fam=("std", "local", "box", "shared"), prims=("data",)),
    "C02": dict(fam=(), prims=()),
    "C04": dict(fam=("shared",), prims=("ids",)),
    "C05": dict(fam=("handle", "std", "local", "box", "shared"), prims=("handles",)),
    "C06": dict(fam=("static",), prims=()),
    "C07": dict(fam=("box",), prims=("heap",)),
    "C25": dict(fam=("delayed",), prims=()),
}
# what a family must at least contain for the check to mean anything
NEED = {"C01": 40, "C04": 2, "C05": 40, "C06": 2, "C07": 1, "C25": 1}


def is_plain(A, s, d):
    """Implementations that exist only to satisfy the trait: plain data never reaches them."""
    f = context(A).ops.opaque(frozenset())

    def dead(k):
        g = A.run(k, opaque=f)
        return not any(e.kind == "ret" for e in all_events(g))
    return dead(s) and dead(d)


def check(A, rep, prop, tier):
    C = context(A)
    G = GROUPS[prop]
    n = 0
    names = set()
    for ty, s, d, im in C.impls():
        if family(A, ty) not in G["fam"] or s is None or d is None:
            continue
        name = tystr(ty)
        names.add(ty[1].split("::")[-1] if ty[0] == "adt" else ty[0])
        if is_plain(A, s, d):
            continue
        p = pair_of(A, ty, s, d)
        n += 1
        if p.ends == 0 and p.reports and all(r[1] is not False for r in p.reports) and not any(r[1] is None for r in p.reports):
            rep.oblige("K-complete", None, name, None, "no complete pair of paths")
        if p.reports is not None and all(r[1] is not False for r in p.reports if r[0] != "writes"):
            if p.ends:
                rep.oblige("K-lockstep", True, f"{name}: {p.ends} pairs of complete paths, {p.pairs} pairs of operations")
        for kind, ok, what, ev in p.reports:
            if kind == "writes":
                # refusing to write is no transfer at all
                continue
            rep.oblige("K-" + kind, ok, name, ev, f"{name}: {what}")
    rep.anchor("implementations compared", n, NEED.get(prop, 0))
    m = 0
    for group, name, ok, detail, ev in A._prims:
        if group in G["prims"]:
            m += 1
            rep.oblige("P-" + group, ok, name, ev, f"{name}: {detail}")
    if G["prims"]:
        rep.anchor("facts about primitives", m, 1)
    rep.notes.append(f"{n} implementations, types: {sorted(names)}")


_K = {
    "K-lockstep": "walking encoder and decoder of the type together, every operation of one meets its counterpart of the other, up to the end of both",
    "K-order": "the next thing read has the type of the next thing written", "K-extent": "both sides end together",
    "K-value": "the value rebuilt equals the value written (all fields, variant, elements in order)", "K-reads": "the reader does not panic on what was written",
    "K-result": "reading succeeds where everything was written", "K-handles": "handles are taken in the order they were added",
    "K-numbering": "writer and reader give a shared object the same number", "K-remember": "the reader remembers every numbered object",
    "K-remember-value": "what is remembered is what is returned", "K-identity": "objects are told apart by the address of their contents",
    "K-constructor": "boxed contents are rebuilt by the constructor of the type written", "K-shape": "both sides are understood", "K-complete": "some pair of complete paths exists",
}
_P = {"P-data": "write appends, read advances by what it returns, plain values are their own image, others are encoded by their own code, slices element by element in order",
      "P-handles": "handles are appended on writing, handed out from the front on reading, each once, and given out with the data",
      "P-ids": "numbers are given in order of first appearance, stored objects are found under the number they were given",
      "P-heap": "what is placed on the heap is the value read, in memory of its own that is not released"}
_E = ("Every implementation of the object trait is analysed on its own: encoder and decoder graphs (from MIR, all inlined down to the primitives of Serializer and Deserializer) are "
      "walked in lockstep, with symbolic values, loops paired by induction; the primitives themselves are checked by the state they leave behind. ")
_W = {"C01": "Decided for all values and all type parameters (symbolic), for every standard type.", "C04": "Decided for Rc and Arc with arbitrary contents.",
      "C05": "Decided for every implementation that contains or carries handles, and for the primitives that list and hand them out; plus the channel and start-up rules on handle lists.",
      "C06": "Decided for static references, function pointers and relocatable pointers.", "C07": "Decided for Box of sized contents and of trait objects.",
      "C25": "Decided for the package of a delayed object."}
RULES = {p: dict(_K, **{x: t for x, t in _P.items() if x[2:] in g["prims"]}) for p, g in GROUPS.items()}
EXPLAIN = {p: _E + w for p, w in _W.items()}
