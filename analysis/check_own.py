"""Ownership of raw handles: C20 (and the rule about open handles for C05).

Every function of the crate that a user can call, and every implementation of a trait, is explored with everything it
calls inlined. Along each path the owners of each descriptor number are followed: giving a number up (into_raw), taking
it over (from_raw), forgetting an owner, closing or dropping an owner. Conversions and accessors are in addition checked
for what they hand out.
"""
from common import *
from interp import Undecided
from check_proc import graph, called, has, owns, ops
from paths import Pos
import codec

HANDLES = {"OwnedFd", "File", "UnixStream", "UnixDatagram", "UnixListener", "TcpStream", "TcpListener", "UdpSocket", "OwnedHandle", "PipeReader", "PipeWriter",
           "ChildStdin", "ChildStdout", "ChildStderr", "Async", "AsyncFd", "Stdin"}


def holds(db, t, depth=0):
    """Does a value of this type own a descriptor?"""
    if depth > 6 or t is None:
        return False
    if t[0] == "adt":
        if t[1].split("::")[-1] in HANDLES:
            return True
        if any(holds(db, x, depth + 1) for x in t[2] if isinstance(x, tuple)) and t[1].split("::")[-1] != "PhantomData":
            return True
        a = db.adts.get(t[1])
        if a:
            return any(holds(db, f[1], depth + 1) for v in a["variants"] for f in v["fields"])
    if t[0] in ("tuple",):
        return any(holds(db, x, depth + 1) for x in t[1])
    if t[0] in ("array", "slice"):
        return holds(db, t[1], depth + 1)
    return False


def roots(A):
    """[(label, key, env, is a codec)] every function a user can call, and the start of a child."""
    C = codec.Codecs(A) if not hasattr(A, "_codecs") else A._codecs
    cod = {}
    for ty, s, d, im in C.impls():
        for k in (s, d):
            if k:
                cod[k] = ty
    streams = A.streams()
    out = []
    for k, d in sorted(A.db.defs.items()):
        if not d.get("local") or k not in A.db.bodies or d.get("kind") not in ("Fn", "AssocFn") or not k.startswith("crossmist::"):
            continue
        c = d.get("container")
        if c == "trait" or c in (None, "inherent") and d.get("vis") != "Public":
            continue
        st = d.get("self_ty")
        label = (tystr(st) + "::" if st else "") + d["name"] if c else "::".join(k.split("::")[1:])
        if k in cod:
            out.append((label, k, {}, C.ops.opaque(frozenset())))
            continue
        gs = [g for g in d.get("generics") or [] if g[0] == "Stream"]
        if gs:
            for n, ty, b in streams:
                out.append((label.replace("Stream", n), k, A.env_for(k, Stream=ty), None))
        else:
            out.append((label, k, {}, None))
    return out


def unwrapfd(n):
    return n.a[1][0] if n.op == "app" and n.a[0] == "fdof" else None


def mentions(t, n):
    """Does the value contain the number (not merely the outcome of an operation on it)?"""
    if t is n:
        return True
    if t.op == "call":
        return False
    if t.op == "agg":
        return any(mentions(y, n) for y in t.a[2])
    if t.op in ("fld", "hav", "with", "upd", "app", "bin", "&", "ref", "pcast"):
        return any(mentions(y, n) for y in kids(t))
    return has(t, n)


def kids(t):
    for y in t.a:
        if isinstance(y, Term):
            yield y
        elif isinstance(y, tuple):
            for z in y:
                if isinstance(z, Term):
                    yield z


def shared_borrow(A, key, x):
    """The value is reached through a shared reference argument."""
    b = A.db.bodies[key]
    for y in subterms(x):
        if y.op == "deref" and y.a[0].op == "sym" and y.a[0].a[0] == "arg":
            i = y.a[0].a[1]
            if i <= b.argc and b.locals[i][0] == "ref" and not b.locals[i][1]:
                return True
    return False


def part_of(x, v):
    """Is x a part of v, or of a value v is made of?"""
    whole = {v}
    work = [v]
    while work:
        y = work.pop()
        if y.op == "agg":
            for z in y.a[2]:
                whole.add(z)
                work.append(z)
    while x.op == "fld":
        x = x.a[0]
        if x in whole and x.op != "agg":
            return True
    return False


class Own:
    """Path-wise ownership of the numbers in one graph."""

    def __init__(self, A, g, key):
        self.A, self.g, self.key = A, g, key
        self.bad = {}
        self.numbers = set()
        evs = list(all_events(g)) + list(g.entry_edge.events)
        self.traffic = any(e.kind in ("fd_release", "fd_adopt", "forget") or called(e, "close") for e in evs)
        for e in evs:
            if e.kind in ("fd_release", "fd_adopt"):
                n = e.res if e.kind == "fd_release" else e.deep[0]
                self.numbers.add(self.num(n))
            if e.kind in ("ret", "call"):
                for a in e.deep or ():
                    for x in subterms(a):
                        if x.op == "app" and x.a[0] == "fdof":
                            self.numbers.add(x)
        self.init = {}
        d = A.db.defs.get(key) or {}
        if d.get("name") in ("from_raw_fd", "from_raw_handle"):
            # the caller hands the number over
            a = mk("sym", "arg", 1, next((x.a[2] for e in evs for t in e.deep or () for x in subterms(t) if x.op == "sym" and x.a[0] == "arg" and x.a[1] == 1), None))
            self.numbers.add(a)
            self.init[a] = "free"

    @staticmethod
    def num(t):
        """A descriptor number; a borrowed handle stands for its number."""
        if t.op == "app" and t.a[0] == "owned":
            return t.a[1][0]
        return t

    def owner(self, v, n):
        """Does the value own descriptor number n?"""
        o = app("owned", n)
        if any(x is o for x in subterms(v)) and owns(v, o):
            return True
        x = unwrapfd(n)
        return x is not None and (owns(v, x) or part_of(x, v))

    def put(self, rule, e, n, what):
        self.bad.setdefault(rule, (e, f"{what}: descriptor {show(n)[:120]}"))

    def trans(self, s, pos):
        e = pos.ev
        st = dict(s)
        # results of a call made again are new values
        if e.res is not None and e.kind == "call":
            for n in list(st):
                if has(n, e.res):
                    if st[n] == "free":
                        self.put("O2-kept", e, n, "given up and lost in a loop")
                    del st[n]
        if e.kind == "fd_release":
            n = self.num(e.res)
            x = unwrapfd(n)
            if st.get(n) == "closed":
                self.put("O3-open", e, n, "given out after it was closed")
            elif st.get(n) in ("dbl",):
                self.put("O1-one-owner", e, n, "given out while something else owns it too")
            if x is not None and shared_borrow(self.A, self.key, x):
                self.put("O4-borrowed", e, n, "gives up what is only borrowed")
            st[n] = "free"
        elif e.kind == "fd_adopt":
            n = self.num(e.deep[0])
            was = st.get(n)
            if was == "closed":
                self.put("O3-open", e, n, "taken over after it was closed")
            elif was in ("own", "dbl"):
                st[n] = "dbl"
            elif was == "free":
                st[n] = "own"
            elif was == "leaked":
                st[n] = "own"
            else:
                x = unwrapfd(n)
                if x is not None and not isnum(x):
                    st[n] = "dbl"
                    if shared_borrow(self.A, self.key, x):
                        self.put("O4-borrowed", e, n, "takes over what is only borrowed")
                else:
                    st[n] = "own"
        elif e.kind == "forget":
            v = e.deep[0] if e.deep else None
            hit = False
            if v is not None:
                for n in self.numbers:
                    if self.owner(v, n):
                        hit = True
                        st[n] = "own" if st.get(n) == "dbl" else "leaked"
                if not hit:
                    for n in [n for n in st if st[n] == "dbl"]:
                        st[n] = "own"
        elif e.kind == "drop" and e.deep and e.name != "alias":
            v = e.deep[0]
            for n in self.numbers:
                if self.owner(v, n):
                    was = st.get(n)
                    if was == "dbl":
                        self.put("O1-one-owner", e, n, "closed by one of two owners")
                    elif was == "closed":
                        self.put("O3-open", e, n, "closed twice")
                    st[n] = "closed"
        elif called(e, "close"):
            for n in self.numbers:
                if any(self.num(a) is n for a in e.deep or ()):
                    was = st.get(n)
                    if was == "closed":
                        self.put("O3-open", e, n, "closed twice")
                    elif was in ("own", "dbl") or was is None and unwrapfd(n) is not None:
                        st[n] = "dbl"   # closed here, and again by its owner
                        continue
                    st[n] = "closed"
        elif e.kind == "call":
            for n in st:
                if st[n] == "closed" and any(mentions(a, n) for a in e.deep or ()):
                    self.put("O3-open", e, n, f"used by {str(e.name).split('::')[-1]} after it was closed")
                elif st[n] == "free" and any(mentions(a, n) for a in e.deep or ()) and (e.key or "").split("::")[0] not in ("rustix", "libc", "nix"):
                    # whoever is given the number may own it now
                    st[n] = "gone"
        elif e.kind == "ret":
            v = e.deep[0] if e.deep else UNIT
            for n, w in st.items():
                if w == "free" and not mentions(v, n):
                    self.put("O2-kept", e, n, "given up and not taken over: it is never closed")
                elif w == "leaked" and not mentions(v, n):
                    self.put("O2-kept", e, n, "its owner is forgotten: it is never closed")
                elif w == "dbl":
                    self.put("O1-one-owner", e, n, "left with two owners")
                elif w == "closed" and mentions(v, n):
                    self.put("O3-open", e, n, "handed out after it was closed")
            return None
        elif e.kind in ("panic", "diverge"):
            return None
        return frozenset(st.items())

    def run(self, limit=150000):
        g = self.g
        seen, work = set(), []

        def walk(s, node, edge, evs):
            for i, e in enumerate(evs):
                s = self.trans(s, Pos(node, edge, i, e))
                if s is None:
                    return None
            return s

        def cross(s, edge):
            """Loop-carried unknowns that get a new value."""
            if s and edge.dst is not None and edge.dst.phis:
                ch = [ph for ph in edge.dst.phis if edge.assign.get(ph) is not ph]
                out = []
                for n, w in s:
                    if any(has(n, ph) for ph in ch):
                        if w == "free" and edge.arrive is not None:
                            e = next((x for x in all_events(g) if x.kind == "fd_release" and self.num(x.res) is n), None)
                            if e is not None:
                                self.put("O2-kept", e, n, "given up and lost in a loop")
                        continue
                    out.append((n, w))
                s = frozenset(out)
            return s

        s = walk(frozenset(self.init.items()), None, g.entry_edge, g.entry_edge.events)
        if s is not None and g.entry_edge.dst is not None:
            work.append((g.entry_edge.dst, s))
        while work:
            n, s = work.pop()
            if (n.id, s) in seen:
                continue
            seen.add((n.id, s))
            if len(seen) > limit:
                raise Undecided("too many states")
            s = walk(s, n, None, n.events)
            if s is None:
                continue
            for e in n.succs:
                s2 = walk(s, n, e, e.events)
                if s2 is not None and e.dst is not None:
                    work.append((e.dst, cross(s2, e)))
        return self.bad


def isnum(t):
    """A number, not an owner."""
    return t.op in ("int", "trunc")


OWN_RULES = ("O1-one-owner", "O2-kept", "O3-open", "O4-borrowed")


def check_paths(A, rep):
    n = m = 0
    for label, k, env, opq in roots(A):
        try:
            if opq is not None:
                g = A.run(k, env=env, opaque=opq)
            else:
                g = graph(A, rep, k, env, label)
        except Undecided as e:
            rep.undecided.append(f"{label}: {e}")
            continue
        if g is None:
            continue
        n += 1
        o = Own(A, g, k)
        if not o.numbers and not o.traffic:
            continue
        m += 1
        try:
            bad = o.run()
        except Undecided as e:
            rep.oblige("O1-one-owner", None, label, None, str(e))
            continue
        for r in OWN_RULES:
            e, what = bad.get(r, (None, ""))
            rep.oblige(r, r not in bad, label, e, f"{label}: {what}")
    rep.anchor("functions analysed", n, 100)
    rep.anchor("functions that handle descriptor numbers", m, 15)


# ------------------------------------------------------------------------------------------------------------
def of_self(t, i=1):
    """Number of a descriptor that belongs to argument i."""
    x = unwrapfd(t)
    if x is None:
        return None
    return any(y.op == "sym" and y.a[0] == "arg" and y.a[1] == i for y in subterms(x))


def argnum(t, i=1):
    return t.op == "sym" and t.a[0] == "arg" and t.a[1] == i


def okpart(v):
    """Success value of a result, or None on failure; plain values stand for themselves."""
    if v.op == "agg" and isinstance(v.a[0], tuple) and str(v.a[0][1]).split("::")[-1] == "Result":
        return v.a[2][0] if v.a[1] == 0 else None
    return v


def check_conversions(A, rep):
    db = A.db
    ends = {"Sender", "Receiver", "Duplex"}
    n = dict(accessor=0, into=0, back=0, other=0)
    streams = A.streams()
    for t, ims in sorted(db.impls_by_trait.items()):
        tn = t.split("::")[-1]
        if tn not in ("AsRawFd", "AsFd", "AsHandle", "AsRawHandle", "IntoRawFd", "IntoRawHandle", "FromRawFd", "FromRawHandle", "TryFrom", "From", "AsyncStream", "Clone"):
            continue
        for im in ims:
            st = im["args"][0] if im["args"] else None
            if st is None:
                continue
            for name, k, kind, _ in im["items"]:
                if k not in db.bodies:
                    continue
                envs = [("", {})]
                if any(g[0] == "Stream" for g in db.defs[k].get("generics") or []):
                    envs = [(f"<{s}>", A.env_for(k, Stream=ty)) for s, ty, b in streams]
                for suf, env in envs:
                    label = f"{tn} for {tystr(st)}{suf}"
                    if name in ("as_raw_fd", "as_fd", "as_raw_handle", "as_handle"):
                        g = graph(A, rep, k, env, label)
                        if g is None:
                            continue
                        n["accessor"] += 1
                        for e in all_events(g):
                            if e.kind == "fd_release":
                                rep.oblige("V1-borrows", False, label, e, f"{label}: the accessor gives up ownership")
                            if e.kind == "ret":
                                w = of_self(Own.num(e.deep[0]))
                                rep.oblige("V1-borrows", w, label, e, f"{label}: hands out {show(e.deep[0])[:120]}")
                    elif name in ("into_raw_fd", "into_raw_handle"):
                        g = graph(A, rep, k, env, label)
                        if g is None:
                            continue
                        n["into"] += 1
                        for e in all_events(g):
                            if e.kind == "ret":
                                w = of_self(Own.num(e.deep[0]))
                                rep.oblige("V2-gives", w, label, e, f"{label}: hands out {show(e.deep[0])[:120]}")
                                rep.oblige("V2-gives", any(x.kind in ("fd_release", "forget") for x in all_events(g)) or False, label, e, f"{label}: the number handed out is closed on return")
                    elif name in ("from_raw_fd", "from_raw_handle"):
                        g = graph(A, rep, k, env, label)
                        if g is None:
                            continue
                        n["back"] += 1
                        for e in all_events(g):
                            if e.kind == "ret":
                                v = e.deep[0]
                                ad = [x for x in subterms(v) if x.op == "app" and x.a[0] == "owned"]
                                ok = True if len(ad) == 1 and argnum(ad[0].a[1][0]) and owns(v, ad[0]) else False if all(x.op != "call" for x in subterms(v)) else None
                                rep.oblige("V3-takes", ok, label, e, f"{label}: the result {show(v)[:120]} does not own the number given")
                    elif tn in ("TryFrom", "From") and st[0] == "adt" and st[1].split("::")[-1] in ends or name in ("try_new", "from_stream"):
                        b = db.bodies[k]
                        if b.argc != 1 or not holds(db, b.locals[1]) and b.locals[1][0] != "param":
                            continue
                        g = graph(A, rep, k, env, label)
                        if g is None:
                            continue
                        n["other"] += 1
                        okret = 0
                        for e in all_events(g):
                            if e.kind != "ret":
                                continue
                            v = okpart(e.deep[0])
                            if v is None:
                                continue
                            okret += 1
                            mine = [y for y in subterms(v) if y.op == "sym" and y.a[0] == "arg" and y.a[1] == 1]
                            other = [y for y in subterms(v) if y.op == "call" and str(y.a[0]).split("::")[-1] in ("socketpair", "pair", "dup", "try_clone", "try_clone_to_owned", "open", "socket")]
                            rep.oblige("V4-same", bool(mine) and not other, label, e, f"{label}: the result {show(v)[:120]} does not refer to the descriptor of the original")
                        if okret == 0:
                            rep.oblige("V4-same", None, label, None, "never succeeds")
    rep.anchor("borrowing accessors", n["accessor"], 6)
    rep.anchor("conversions to a number", n["into"], 3)
    rep.anchor("conversions from a number", n["back"], 3)
    rep.anchor("conversions between runtimes", n["other"], 3)


RULES = {"C20": {
    "O1-one-owner": "no number is owned by two objects when a function returns, or when one of the owners is dropped",
    "O2-kept": "a number given up by its owner is taken over, closed or returned on every path to a return, errors included",
    "O3-open": "a number is not used, taken over, closed or handed out after it was closed",
    "O4-borrowed": "nothing takes over a descriptor that is only borrowed",
    "V1-borrows": "borrowing accessors hand out the number of the object's own descriptor and keep ownership",
    "V2-gives": "conversion to a number hands out the number of the object's own descriptor, unclosed",
    "V3-takes": "conversion from a number makes an object owning exactly that number",
    "V4-same": "conversion between runtimes keeps the descriptor of the original"}}
EXPLAIN = {"C20": "Path-wise typestate over every function a user can call (all inlined, every channel back end): who owns each descriptor number, by symbolic identity of numbers and owners; "
                  "plus checks of what each conversion and accessor hands out. Unwinding after a panic is not followed."}


def check(A, rep, prop, tier):
    check_paths(A, rep)
    check_conversions(A, rep)
