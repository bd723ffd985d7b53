"""Round-trip comparison of a pair of serialize/deserialize functions.

Both functions are explored as graphs in which the operations of Serializer / Deserializer are events. The
product of the two graphs is explored in lockstep: each value written is matched with the value read, the
unknowns of the reading side are expressed in values of the writing side, and at the end of both the value
built is compared with the value that was written. Loops of the product are closed by generalising the
loop-carried unknowns of both sides (counters, collections being filled) and verifying the generalisation
inductively.
"""
from paths import *
from lin import truth, le, with_true, nonneg_by, known
from points import point, differ, tell
from mirdb import tystr, tyname, subst, unify
import terms as T_

SIZES = dict(u8=1, i8=1, u16=2, i16=2, u32=4, i32=4, u64=8, i64=8, usize=8, isize=8, u128=16, i128=16)


class Mismatch(Exception):
    pass


class Giveup(Exception):
    """The shape of the code is outside what the comparison understands."""


class Token:
    __slots__ = ("kind", "ty", "val", "extra", "ev", "pos")

    def __init__(self, kind, ev, ty=None, val=None, extra=None):
        self.kind, self.ev, self.ty, self.val, self.extra, self.pos = kind, ev, ty, val, extra, None

    def __repr__(self):
        return f"{self.kind} {tystr(self.ty) if self.ty else ''} {show(self.val) if self.val is not None else ''}"


def deref(p):
    if p.op == "&":
        return p.a[0]
    if p.op == "app" and p.a[0] == "addr_of":
        return p.a[1][0]
    return mk("deref", p)


def strip(v):
    """The value of an operand given by reference."""
    if v.op == "&":
        return v.a[0]
    if v.op == "pcast":
        return strip(v.a[2])
    return deref(v)


class Ops:
    """Recognition of the codec operations of the crate's public interface."""

    NAMES = {
        "Serializer": {"write", "serialize", "serialize_slice", "serialize_temporary", "serialize_handle", "drain_handles",
                       "learn_cyclic", "into_vec", "new", "default"},
        "Deserializer": {"new", "read", "deserialize", "learn_cyclic", "reserve_cyclic", "fill_cyclic", "get_cyclic"},
    }
    TRAIT = {"serialize_self", "serialize_slice", "deserialize_self", "deserialize_on_heap", "deserialize_on_heap_get",
             "serialize_self_non_trivial", "deserialize_self_non_trivial"}

    def __init__(self, A):
        self.A = A
        db = A.db
        self.keys = {}
        for k, d in db.defs.items():
            n = d.get("name")
            if not d.get("local"):
                continue
            st = d.get("self_ty")
            if d.get("container") == "inherent" and st and st[0] == "adt":
                a = st[1].split("::")[-1]
                if n in self.NAMES.get(a, ()):
                    self.keys[k] = (a, n)
            elif d.get("container") == "trait" and n in self.TRAIT and d["parent"].split("::")[-1] in ("Object", "NonTrivialObject"):
                self.keys[k] = (d["parent"].split("::")[-1], n)
            elif d.get("container") == "impl" and n in self.TRAIT:
                ti = (d.get("trait_item") or "").split("::")
                if len(ti) > 1 and ti[-2] in ("Object", "NonTrivialObject"):
                    self.keys[k] = (ti[-2], n)
        self.traitkeys = {v: k for k, v in self.keys.items() if (db.defs[k].get("container") == "trait")}

    def find(self, adt, name):
        for k, v in self.keys.items():
            if v == (adt, name):
                return k
        return None

    def opaque(self, expand):
        keys = self.keys

        def f(short, key, targs):
            v = keys.get(key)
            if v is None:
                return False
            if v[1] == "deserialize_on_heap_get":
                return False
            if expand and targs and targs[0] in expand and v[1] in ("serialize", "serialize_temporary", "serialize_self", "serialize_self_non_trivial",
                                                                    "deserialize", "deserialize_self", "deserialize_self_non_trivial"):
                return False
            return True
        return f

    # ---------------------------------------------------------------- tokens
    def token(self, e, side, main):
        """The codec operation an event performs on the main (de)serializer, or None."""
        if e.kind in ("panic", "diverge"):
            return Token("stop", e)
        if e.kind == "ret":
            return Token("ret", e, val=e.args[0] if e.args else UNIT) if e.ctx is None or e.ctx.id == 0 else None
        if e.kind != "call":
            return None
        op = self.keys.get(e.key)
        if op is None and getattr(e, "key", None):
            op = None
        a, t = e.deep or e.args, e.targs or ()
        if op is not None:
            adt, n = op
            if adt in ("Serializer", "Deserializer"):
                if n in ("new", "default"):
                    return None
                if not self.on(e.args[0], main):
                    return None
                if n in ("serialize",):
                    return Token("emit", e, t[-1], strip(a[1]))
                if n == "serialize_temporary":
                    return Token("emit", e, t[-1], a[1], "temporary")
                if n == "serialize_slice" and side == "ser":
                    return Token("slice", e, t[-1], a[1], e.ty[1] if e.ty else None)
                if n == "serialize_handle":
                    return Token("handle", e, val=a[1])
                if n == "write":
                    return Token("raw", e, val=a[1])
                if n == "learn_cyclic":
                    return Token("learn" if side == "ser" else "learnobj", e, t[-1] if t else None, a[1])
                if n in ("drain_handles", "into_vec"):
                    return Token("other", e)
                if n == "deserialize":
                    return Token("take", e, t[-1], e.res)
                if n == "read":
                    return Token("rawread", e, val=a[1])
                if n == "reserve_cyclic":
                    return Token("reserve", e, val=e.res)
                if n == "fill_cyclic":
                    return Token("fill", e, t[-1], a[2], a[1])
                if n == "get_cyclic":
                    return Token("get", e, t[-1], e.res, a[1])
            else:
                if n == "serialize_self" and self.on(e.args[1], main):
                    return Token("emit", e, t[0], strip(a[0]))
                if n == "serialize_self_non_trivial" and self.on(e.args[1], main):
                    return Token("emit", e, t[0], strip(a[0]), "nontrivial")
                if n == "serialize_slice" and self.on(e.args[1], main):
                    return Token("slice", e, t[0], a[0], e.ty[0] if e.ty else None)
                if n == "deserialize_self" and self.on(e.args[0], main):
                    return Token("take", e, t[0], e.res)
                if n == "deserialize_self_non_trivial" and self.on(e.args[0], main):
                    return Token("take", e, t[0], e.res, "nontrivial")
                if n == "deserialize_on_heap" and self.on(e.args[0], main):
                    return Token("takeheap", e, t[0], e.res)
                return None
        # handles of the receiver, taken off its list
        if side == "de" and e.args and self.inside(e.args[0], main):
            m = (e.name or "").split("::")[-1]
            if m in ("next", "pop_front"):
                return Token("takeh", e, val=e.res, extra="front")
            if m in ("next_back", "pop", "pop_back"):
                return Token("takeh", e, val=e.res, extra="back")
            if m in ("as_slice", "len", "is_empty", "as_ref", "size_hint", "eq", "fmt"):
                return None
            return Token("other", e)
        if e.name == "<value>" and side == "de" and any(self.on(x, main) for x in e.args[1:]):
            return Token("indirect", e, val=a[0], extra=e.res)
        if e.args and any(self.on(x, main) for x in e.args):
            return Token("other", e)
        return None

    @staticmethod
    def on(v, main):
        while v.op in ("pcast",):
            v = v.a[2]
        if v is main:
            return True
        return v.op == "ref" and v.a[0] == ("obj", main) and not v.a[1]

    @staticmethod
    def inside(v, main):
        return v.op == "ref" and v.a[0] == ("obj", main) and bool(v.a[1])


class Pair:
    """One comparison: `ser` and `de` are graphs of functions, possibly of different instantiation."""

    MAXNODES = 4000

    def __init__(self, ops, ip, sg, smain, sself, dg, dmain, label):
        self.ops, self.ip, self.sg, self.dg, self.smain, self.dmain, self.sself, self.label = ops, ip, sg, dg, smain, dmain, sself, label
        self.tokcache = {}
        self.counters = {}
        self.comps = {}
        self.reports = []
        self.fresh = 0
        self.count = 0
        self.pairs = 0
        self.mute = 0
        self.want = set()
        self.ends = 0
        self.loops = 0
        self.self_len = None

    # ---------------------------------------------------------------- reporting
    def report(self, kind, ok, what, ev=None):
        self.reports.append((kind, ok, what, ev))

    def newsym(self, name):
        self.fresh += 1
        return mk("sym", name, self.fresh)

    # ---------------------------------------------------------------- evaluation
    def ev(self, t, env):
        ip = self.ip
        sself = self.sself

        def f(x):
            if x.op in ("phi", "call", "hav", "sym"):
                y = env.get(x)
                if y is not None:
                    return y
            if x.op == "deref":
                return deref(x.a[0])
            if x.op == "fld":
                return self.fld(x.a[0], x.a[1], x.a[2])
            if x.op == "app":
                n, a = x.a
                if n == "variant" and a[0].op == "agg":
                    return num(a[0].a[1] or 0)
                if n == "elem":
                    return self.elem(a[0], a[1])
                if n == "len":
                    return self.length(a[0])
                if n == "view" and a[1].op == "app" and a[1].a[0] == "of_view" and a[1].a[1][0] is a[0]:
                    return a[1].a[1][1]
                if n == "of_view" and a[1].op == "app" and a[1].a[0] == "view" and a[1].a[1][0] is a[0]:
                    return a[1].a[1][1]
                if n == "sub":
                    return ip.seqsub(a[0], a[1], a[2])
                if n == "transmute" and len(a) == 3:
                    return self.transmute(a[0], a[1], a[2])
                if n in ("add", "add_front"):
                    return self.extend(a[0].a[0] + ("" if n == "add" else "<"), a[1], a[2])
                if n == "get_ref":
                    return app("addr_of", app("inner", deref(a[0])))
            if x.op == "upd" and x.a[1][0] == "i" and x.a[0].op == "app" and x.a[0].a[0] == "coll" and x.a[1][1] is x.a[0].a[1][2]:
                return self.extend("array", x.a[0], x.a[2])
            return None
        return rewrite(t, f)

    def extend(self, kind, c, x):
        if c.op == "app" and c.a[0] == "coll" and c.a[1][0].a[0] == kind:
            kd, init, n, k, body = c.a[1]
            if rewrite(body, lambda y: n if y is k else None) is x:
                return mk("app", "coll", (kd, init, add(n, num(1)), k, body))
        return None

    @staticmethod
    def transmute(s, d, v):
        if s is d:
            return v
        if v.op == "app" and v.a[0] == "transmute" and v.a[1][1] is s:
            return Pair.transmute(v.a[1][0], d, v.a[1][2])
        return mk("app", "transmute", (s, d, v))

    def fld(self, v, variant, idx):
        return self.ip.pread(v, ("f", idx, variant))

    def elem(self, v, i):
        if v.op == "app" and v.a[0] == "coll":
            kind, init, n, k, body = v.a[1]
            return rewrite(body, lambda x: i if x is k else None)
        return self.ip.pread(v, ("i", i))

    def length(self, v):
        if v.op == "app" and v.a[0] == "coll":
            return v.a[1][2]
        if self.self_len is not None and v is self.self_len[0]:
            return self.self_len[1]
        return self.ip.length(v)

    def truth(self, t, F):
        r = truth(t, F)
        if r is None:
            # sequence lengths and counters written another way
            if t.op == "app" and t.a[0] == "variant" and t.a[1][0].op == "agg":
                return t.a[1][0].a[1]
        return r

    def holds(self, t, v, F):
        """Does fact t == v (v an int, or a set of excluded values) hold under F: True, False or None."""
        w = self.truth(t, F)
        if w is None and t.op == "int":
            w = t.a[0]
        if isinstance(v, int):
            if w is None:
                ex = F.get(t)
                if isinstance(ex, frozenset) and v in ex:
                    return False
                return None
            return w == v
        if w is not None:
            return w not in v
        ex = F.get(t)
        if isinstance(ex, frozenset):
            return True if v <= ex else None
        return None

    # ---------------------------------------------------------------- stepping
    def tok(self, side, e):
        k = (side, id(e))
        if k not in self.tokcache:
            self.tokcache[k] = (self.ops.token(e, side, self.smain if side == "ser" else self.dmain), e)
        return self.tokcache[k][0]

    def comp(self, side):
        if side not in self.comps:
            g = self.sg if side == "ser" else self.dg
            self.comps[side] = reduced_loops(g, lambda e: self.tok(side, e) is not None)
        return self.comps[side]

    def advance(self, side, pos, env, F):
        """Continue to the next operation: [(token, pos, env, facts, undetermined)]."""
        g = self.sg if side == "ser" else self.dg
        comp = self.comp(side)
        out = []
        seen = set()

        def scan(events, i0, node, edge, env, F, und):
            for i in range(i0, len(events)):
                t = self.tok(side, events[i])
                if t is not None:
                    out.append((t, Pos(node, edge, i, events[i]), env, F, und))
                    return True
            return False

        def take(e, i0, env, F, und):
            if i0 == 0:
                F2 = F
                for t, v in e.facts.items():
                    x = self.ev(t, env)
                    h = self.holds(x, v, F2)
                    if h is False:
                        return
                    if h is None:
                        if side == "de":
                            if not self.neutral(x):
                                und = True
                            F2 = self.assume(F2, x, v)
                        else:
                            F2 = self.assume(F2, x, v)
                        if F2 is None:
                            return
                F = F2
            if scan(e.events, i0, e.src, e, env, F, und):
                return
            d = e.dst
            if d is None:
                return
            if d.phis:
                env2 = dict(env)
                inside = d.id in comp and e.src is not None and comp.get(e.src.id) == comp[d.id]
                for ph in d.phis:
                    v = e.assign.get(ph, UNINIT)
                    v = self.ev(v, env)
                    if d.id in comp:
                        if inside:
                            cur = env.get(ph)
                            v = cur if cur is not None and cur.op == "sym" and cur.a[0] == "inner" else mk("sym", "inner", side, ph)
                        else:
                            v = mk("sym", "inner", side, ph)
                    env2[ph] = v
                env = env2
            key = (d.id, tuple(sorted((hash(k), hash(v)) for k, v in env.items())), und)
            if key in seen:
                return
            seen.add(key)
            if len(seen) > 3000:
                raise Giveup("too many steps")
            work.append((d, 0, env, F, und))

        work = []
        if pos is None:
            take(g.entry_edge, 0, env, F, False)
        elif pos.edge is not None:
            take(pos.edge, pos.idx + 1, env, F, False)
        else:
            work.append((pos.node, pos.idx + 1, env, F, False))
        while work:
            n, i0, env, F, und = work.pop()
            if scan(n.events, i0, n, None, env, F, und):
                continue
            for e in n.succs:
                take(e, 0, env, F, und)
        return out

    def neutral(self, t):
        """Conditions that do not come from the data: properties of types, shared by both sides."""
        return all(x.op in ("int", "ty", "str") or x.op == "app" and x.a[0] in ("size_of", "implements") or x.op in ("bin", "un", "lin")
                   for x in subterms(t))

    def assume(self, F, t, v):
        F = dict(F)
        if isinstance(v, int):
            if t.op == "int":
                return F if t.a[0] == v else None
            F = with_true(F, t, v)
            if t.op == "app" or t.op == "fld":
                F[t] = v
        else:
            o = F.get(t)
            if isinstance(o, int):
                return F if o not in v else None
            F[t] = (o | v) if isinstance(o, frozenset) else v
        return F

    # ---------------------------------------------------------------- product
    def run(self):
        try:
            self.explore(None, None, {}, {}, {}, dict(learn=(), resv=(), filled=()), [])
        except Giveup as e:
            self.report("shape", None, str(e))
        return self.reports

    def poskey(self, p):
        return None if p is None else (p.node.id if p.node is not None else -1, p.edge.target if p.edge is not None and hasattr(p.edge, "target") and not isinstance(p.edge.target, dict) else id(p.edge), p.idx)

    def ser_next(self, spos, senv, F, st):
        """Next stream operations of the writer, with the elements of slices one by one."""
        out = []
        work = [(spos, senv, F, st, False)]
        n = 0
        while work:
            pos, env, F, st, und0 = work.pop()
            n += 1
            if n > 400:
                raise Giveup("too many writer paths")
            if pos is not None and pos.idx == "slice":
                tok, base = pos.node, pos.edge
                seq, j = env["slice"], env["slicej"]
                ln = self.length(seq)
                cond = compare("Lt", j, ln)
                h = self.truth(cond, F)
                if h in (None, 1):
                    F1 = F if h == 1 else self.assume(F, cond, 1)
                    if F1 is not None:
                        e2 = dict(env)
                        e2["slicej"] = add(j, num(1))
                        t = Token("emit", tok.ev, tok.ty, self.elem(seq, j), "element")
                        out.append((t, pos, e2, F1, st, und0))
                if h in (None, 0):
                    F0 = F if h == 0 else self.assume(F, cond, 0)
                    if F0 is not None:
                        e2 = {k: v for k, v in env.items() if not isinstance(k, str)}
                        work.append((base, e2, F0, st, und0))
                continue
            for tok, p, env2, F2, und in self.advance("ser", pos, env, F):
                und = und or und0
                if tok.kind == "slice":
                    v = self.ev(tok.val, env2)
                    e3 = dict(env2)
                    e3["slice"] = self.seq(v, tok)
                    e3["slicej"] = num(0)
                    work.append((Pos(tok, p, "slice", tok.ev), e3, F2, st, und))
                elif tok.kind == "learn":
                    ptr = self.ev(tok.val, env2)
                    s = self.newsym("learn")
                    e3 = dict(env2)
                    e3[tok.ev.res] = s
                    st2 = dict(st)
                    st2["learn"] = st["learn"] + ((s, ptr),)
                    if "NonZero" in str(self.ops.A.db.bodies[tok.ev.key].locals[0] if tok.ev.key in self.ops.A.db.bodies else ""):
                        F2 = self.assume(F2, mk("fld", s, 1, 0), frozenset([0])) or F2
                    work.append((p, e3, F2, st2, und))
                else:
                    out.append((tok, p, env2, F2, st, und))
        return out

    def seq(self, v, tok):
        return strip(v)

    def de_next(self, dpos, denv, F, st):
        out = []
        work = [(dpos, denv, F, st, False)]
        n = 0
        while work:
            pos, env, F, st, und0 = work.pop()
            n += 1
            if n > 400:
                raise Giveup("too many reader paths")
            for tok, p, env2, F2, und in self.advance("de", pos, env, F):
                und = und or und0
                k = tok.kind
                if k == "reserve":
                    s = self.newsym("cid")
                    e3 = dict(env2)
                    e3[tok.ev.res] = s
                    st2 = dict(st)
                    st2["resv"] = st["resv"] + (s,)
                    work.append((p, e3, F2, st2, und))
                elif k in ("fill", "learnobj"):
                    st2 = dict(st)
                    v = self.ev(tok.val, env2)
                    if k == "fill":
                        cid = self.ev(tok.extra, env2)
                    else:
                        cid = self.newsym("cid")
                        st2["resv"] = st["resv"] + (cid,)
                    st2["filled"] = st2["filled"] + ((cid, v, tok.ty, tok.ev),)
                    work.append((p, env2, F2, st2, und))
                elif k == "get":
                    e3 = dict(env2)
                    e3[tok.ev.res] = app("ref_of", app("shared", self.ev(tok.extra, env2), mk("ty", tok.ty)))
                    work.append((p, e3, F2, st, und))
                else:
                    out.append((tok, p, env2, F2, st, und))
        return out

    def explore(self, spos, dpos, senv, denv, F, st, stack):
        self.count += 1
        if self.count > self.MAXNODES:
            raise Giveup("too many states")
        key = (self.poskey(spos) if spos is None or spos.idx != "slice" else ("slice", self.poskey(spos.edge)), self.poskey(dpos), bool(st.get("behind")))
        for i, fr in enumerate(stack):
            if fr["key"] == key:
                raise_or_record(self, fr, senv, denv, F, st)
                return
        frame = dict(key=key, senv=senv, denv=denv, F=F, mode="raw", revisits=[], st=st)
        mark = len(self.reports)
        try:
            self.branches(spos, dpos, senv, denv, F, st, stack + [frame])
            return
        except Loop as l:
            if l.frame is not frame:
                raise
            first = l
        # a loop of the product: generalise
        del self.reports[mark:]
        self.loops += 1
        G = self.generalise(frame, first, spos, dpos, stack)
        del self.reports[mark:]
        frame["mode"] = "final"
        frame["revisits"] = []
        self.branches(spos, dpos, G["senv"], G["denv"], G["F"], st, stack + [frame])

    def generalise(self, frame, first, spos, dpos, stack):
        J = self.newsym("J")
        demoted = set()
        envs0 = dict(s=frame["senv"], d=frame["denv"])
        envs1 = dict(s=first.senv, d=first.denv)
        for attempt in range(5):
            G = dict(s={}, d={})
            unk = {}
            for w in ("s", "d"):
                for u in set(envs0[w]) | set(envs1[w]):
                    a, b = envs0[w].get(u), envs1[w].get(u)
                    if a is None or b is None or (w, u) in demoted:
                        g = None
                    else:
                        g = a if a is b else antiunify(a, b, J)
                    if g is None:
                        g = unk[(w, u)] = self.newsym("U")
                    G[w][u] = g
            usyms = set(unk.values())
            frame["mode"] = "collect"
            frame["revisits"] = []
            mark = len(self.reports)
            self.branches(spos, dpos, G["s"], G["d"], frame["F"], frame["st"], stack + [frame])
            del self.reports[mark:]
            bad = set()
            nxt = add(J, num(1))
            for r in frame["revisits"]:
                for w, e in (("s", r[0]), ("d", r[1])):
                    for u in set(G[w]) | set(e):
                        g = G[w].get(u)
                        v = e.get(u)
                        if (w, u) in unk or g is None:
                            if g is None:
                                bad.add((w, u))
                            continue
                        if v is None or v is not self.ev(rewrite(g, lambda x: nxt if x is J else None), {}):
                            bad.add((w, u))
            if not bad:
                break
            demoted |= bad
        else:
            raise Giveup("no loop invariant found")
        # bounds of counters
        Fh = dict(frame["F"])
        if frame["revisits"]:
            cands = None
            for r in frame["revisits"]:
                here = set()
                for t, v in r[2].items():
                    if t.op == "bin" and t.a[0] in ("Lt", "Eq") and v == (1 if t.a[0] == "Lt" else 0):
                        if any(x in usyms for x in subterms(t)):
                            continue
                        d = sub(t.a[2], t.a[1])
                        c, parts = T_._linparts(d)
                        if abs(parts.get(J, 0)) == 1:
                            here.add(d if parts[J] == -1 else sub(num(0), d))
                cands = here if cands is None else cands & here
            for d in cands or ():
                # d = bound - J > 0 in every iteration, so bound - J >= 0 at the head if it holds at first
                init = rewrite(d, lambda x: num(0) if x is J else None)
                if nonneg_by(init, known(frame["F"])):
                    c, parts = T_._linparts(d)
                    l = T_.lin(max(c, 0), {k: v for k, v in parts.items() if v > 0})
                    rr = T_.lin(max(-c, 0), {k: -v for k, v in parts.items() if v < 0})
                    Fh[mk("bin", "Lt", l, rr)] = 0
        # collections being filled
        for (w, u), s in unk.items():
            forms = set()
            for r in frame["revisits"]:
                v = (r[0] if w == "s" else r[1]).get(u)
                forms.add(self.grow(v, s, usyms, J) if v is not None else None)
            if len(forms) == 1:
                (f,) = forms
                init = envs0[w].get(u)
                if f is not None and init is not None:
                    kind, x = f
                    k = self.newsym("k")
                    G[w][u] = mk("app", "coll", (mk("str", kind), init, J, k, rewrite(x, lambda y: k if y is J else None)))
        return dict(senv=G["s"], denv=G["d"], F=Fh)

    def grow(self, v, s, usyms, J):
        if v.op == "app" and v.a[0] in ("add", "add_front") and v.a[1][1] is s:
            x = v.a[1][2]
            if not any(y in usyms for y in subterms(x)):
                return (v.a[1][0].a[0] + ("" if v.a[0] == "add" else "<"), x)
        if v.op == "upd" and v.a[0] is s and v.a[1][0] == "i" and v.a[1][1] is J:
            x = v.a[2]
            if not any(y in usyms for y in subterms(x)):
                return ("array", x)
        if v.op == "app" and v.a[0] == "reinterp" and len(v.a[1]) == 3:
            # writes through a pointer to the elements
            inner = v.a[1][1]
            if inner.op == "upd" and inner.a[1][0] == "i" and inner.a[1][1] is J and inner.a[0].op == "app" and inner.a[0].a[0] == "reinterp" and inner.a[0].a[1][1] is s:
                x = inner.a[2]
                if not any(y in usyms for y in subterms(x)):
                    return ("array", x)
        return None

    def branches(self, spos, dpos, senv, denv, F, st, stack):
        for stok, sp, se, sF, sst, sund in self.ser_next(spos, senv, F, st):
            if stok.kind == "stop":
                self.report("writes", None if sund else "panic", "writing panics", stok.ev)
                continue
            nxt = self.de_next(dpos, denv, sF, sst)
            if not nxt:
                self.report("shape", None, f"no continuation of the reader after {stok!r}", stok.ev)
            und = any(x[5] for x in nxt) and len(nxt) > 1 or bool(sst.get("und"))
            for dtok, dp, de, dF, dst, dund in nxt:
                self.pairs += 1
                u = und or dund or sund
                self.match(stok, sp, se, dtok, dp, de, dF, dict(dst, und=True) if u else dst, u, stack, (dpos, denv))

    # ---------------------------------------------------------------- matching
    def match(self, s, sp, se, d, dp, de, F, st, und, stack, back):
        sev, dev = s.ev, d.ev

        def bad(kind, what, ev):
            if und:
                p = self.example(F)
                if p is not None:
                    self.report(kind, False, what + f" (for example when {tell(p)})", ev)
                    return
            self.report(kind, None if und else False, what, ev)
        if s.kind == "other" or d.kind == "other":
            self.report("shape", None, f"unknown operation {(s if s.kind == 'other' else d).ev.name}", sev)
            return
        if d.kind == "stop":
            if s.kind == "ret" or True:
                bad("reads", f"reading panics where {s!r} was written" if s.kind != "ret" else "reading panics after everything was read", dev)
            return
        if d.kind == "ret":
            v = self.ev(d.val, de)
            if s.kind != "ret":
                bad("extent", f"the reader stops before {self.tokstr(s, se)} is read", sev)
                return
            if st.get("behind") and v.op == "agg" and v.a[0] == RESULT and v.a[1] == 0:
                bad("handles", "some of the handles written are never read", dev)
                return
            self.final(se, v, F, st, und, sev, dev)
            return
        if s.kind == "ret":
            bad("extent", f"the reader reads {self.tokstr(d, de)} that was not written", dev)
            return
        # both are stream operations
        if s.kind == "handle" or d.kind == "takeh":
            if s.kind == "handle" and d.kind == "takeh":
                if st.get("behind"):
                    self.report("shape", None, "handles are read out of step with the bytes", sev)
                    return
                if d.extra != "front":
                    bad("handles", "handles are taken from the end of the list", dev)
                h = self.ev(s.val, se)
                e2 = dict(de)
                e2[d.val] = self.some(dev, app("handle", h))
                return self.explore(sp, dp, se, e2, F, st, stack)
            if s.kind == "handle" and d.kind == "take":
                if self.plain(d.ty):
                    # handles travel beside the bytes: the reader may come to this one later
                    return self.explore(sp, back[0], se, back[1], F, dict(st, behind=True), stack)
                if self.expandable(d.ty):
                    self.want.add(d.ty)
                    raise Expand()
                bad("order", f"a handle is written where {tystr(d.ty)} is read", sev)
                return
            if d.kind == "takeh" and s.kind == "emit":
                if self.expandable(s.ty):
                    self.want.add(s.ty)
                    raise Expand()
                bad("order", f"{tystr(s.ty)} is written where a handle is read", dev)
                return
            self.report("shape", None, "handle operation not understood", sev)
            return
        if d.kind == "indirect":
            f = self.ev(d.val, de)
            fn = f
            while fn.op == "app" and fn.a[0] in ("transmute", "reinterp") or fn.op == "agg" and len(fn.a[2]) == 1 or fn.op == "pcast":
                fn = fn.a[2] if fn.op == "pcast" else fn.a[2][0] if fn.op == "agg" else fn.a[1][2] if fn.a[0] == "transmute" else fn.a[1][1]
            if fn.op == "app" and fn.a[0] in ("fnaddr", "addr_of_fn"):
                fn = fn.a[1][0]
            if fn.op == "fn":
                k = self.ops.keys.get(fn.a[0])
                if k and k[1] == "deserialize_on_heap" and s.kind == "emit":
                    ty = fn.a[1][0] if fn.a[1] else None
                    ty = ty.a[0] if isinstance(ty, Term) else ty
                    self.report("constructor", (ty == s.ty) or (None if und else False), f"contents of {tystr(s.ty)} are rebuilt by the constructor of {tystr(ty) if ty else '?'}", dev)
                    e2 = dict(de)
                    e2[d.extra] = self.ok(app("heap", self.ev(s.val, se)))
                    return self.explore(sp, dp, se, e2, F, st, stack)
            self.report("shape", None, f"indirect call of {show(f)[:120]}", dev)
            return
        if s.kind == "raw" or d.kind == "rawread":
            self.rawmatch(s, sp, se, d, dp, de, F, st, und, stack, bad)
            return
        if s.kind == "emit" and d.kind == "takeheap":
            if s.ty != d.ty:
                bad("order", f"{tystr(s.ty)} is written where {tystr(d.ty)} is read", sev)
                return
            e2 = dict(de)
            e2[d.val] = self.ok(app("heap", self.ev(s.val, se)))
            return self.explore(sp, dp, se, e2, F, st, stack)
        if s.kind == "emit" and d.kind == "take":
            v = self.ev(s.val, se)
            if s.ty == d.ty or self.compatible(s.ty, d.ty):
                if not self.plain(s.ty):
                    self.cyclic_aligned(F, st, und, sev, dev)
                    st = self.settle(F, st)
                e2 = dict(de)
                e2[d.val] = self.ok(v)
                if s.ty[0] == "adt" and tyname(s.ty).split("<")[0].startswith("NonZero"):
                    F = self.assume(F, v, frozenset([0])) or F
                return self.explore(sp, dp, se, e2, F, st, stack)
            sx, dx = self.expandable(s.ty), self.expandable(d.ty)
            if sx or dx:
                if sx and (not dx or self.weight(s.ty) >= self.weight(d.ty)):
                    self.want.add(s.ty)
                else:
                    self.want.add(d.ty)
                raise Expand()
            bad("order", f"{self.tokstr(s, se)} is written where {tystr(d.ty)} is read", sev)
            return
        self.report("shape", None, f"{s!r} against {d!r}", sev)

    def rawmatch(self, s, sp, se, d, dp, de, F, st, und, stack, bad):
        self.report("shape", None, "raw bytes", s.ev)

    def tokstr(self, t, env):
        v = ""
        if t.kind == "emit":
            v = " = " + show(self.ev(t.val, env))[:80]
        return f"{tystr(t.ty) if t.ty else t.kind}{v}"

    def weight(self, t):
        return len(str(t))

    def counts(self, t):
        """Is a term the counter of a loop left behind: from 0 in steps of 1?"""
        if t.op != "sym" or t.a[0] != "inner":
            return False
        if t not in self.counters:
            init, back = growth(self.sg if t.a[1] == "ser" else self.dg, t.a[2])
            self.counters[t] = bool(init) and bool(back) and all(v is num(0) for v in init) and all(v is add(t.a[2], num(1)) for v in back)
        return self.counters[t]

    def example(self, F):
        """Values for which the facts hold. The counter of a loop that has been left is at the bound of the loop."""
        n = {t for f in F for t in subterms(f) if self.counts(t)}
        at = [neg(compare("Lt", f.a[2], f.a[1])) for f, v in F.items() if v == 0 and f.op == "bin" and f.a[0] == "Lt" and f.a[1] in n]
        if {t for x in at for t in subterms(x)} >= n:
            return point(F, lambda t: t in n or self.quantity(t), at)
        return point(F, self.quantity)

    def quantity(self, t):
        """Quantities that take every value independently: numbers in the value sent, lengths in it, positions, sizes of parameters."""
        if t.op == "sym" and t.a[0] in ("J", "const"):
            return True
        if t.op == "app" and t.a[0] == "len":
            t = t.a[1][0]
            if t.op == "app" and t.a[0] == "view" and t.a[1][0].op == "str" and t.a[1][0].a[0] == "bytes":
                t = t.a[1][1]
            elif t.op == "app" and t.a[0] == "chars":
                t = t.a[1][0]
            elif t.op == "call" and t.a[0].split("::")[-1] == "drain_handles":
                return True     # as many as the object holds
        elif t.op == "app" and t.a[0] == "variant":
            return self.path(t.a[1][0])
        elif t.op == "app" and t.a[0] == "size_of":
            return t.a[1][0].op == "ty" and t.a[1][0].a[0][0] == "param"
        elif t.op == "ty":
            return t.a[0][0] == "kparam"
        return self.path(t) and not any(x.op == "app" and x.a[0] == "view" for x in subterms(t))

    def plain(self, t):
        """A type whose transfer involves no handles and no shared pointers."""
        if t[0] in ("int", "float", "bool", "char"):
            return True
        if t[0] == "adt":
            n = tyname(t)
            if n.startswith("NonZero") or n in ("Duration", "Instant", "String", "PathBuf", "OsString", "CString", "RelocatablePtr"):
                return True
            if n in ("Vec", "Option") and t[2]:
                return self.plain(t[2][0])
        return False

    @staticmethod
    def intsize(t):
        if t[0] == "adt" and tyname(t).startswith("NonZero") and t[2]:
            t = t[2][0]
        return (SIZES.get(t[1]), t[1].startswith("i")) if t[0] == "int" else (None, None)

    def compatible(self, a, b):
        x, y = self.intsize(a), self.intsize(b)
        return x[0] is not None and x == y

    def expandable(self, t):
        if t[0] in ("param", "bool", "char", "alias", "int", "float"):
            return False
        if t[0] == "adt" and (self.intsize(t)[0] is not None):
            return False
        r = self.ip.find_impl(self.nt_trait(), (t,))
        if r is None:
            return False
        p = self.ip.implements("PlainOldData", (t,)) if False else None
        for name, k, kind, ty in r[0]["items"]:
            if name == "deserialize_self_non_trivial" and k in self.ops.A.db.bodies:
                return len(self.ops.A.db.bodies[k].blocks) > 2
        return False

    def nt_trait(self):
        return self.ops.A.db_nt

    def ok(self, v):
        return mk("agg", RESULT, 0, (v,))

    def some(self, ev, v):
        return mk("agg", OPTION, 1, (v,))

    # ---------------------------------------------------------------- shared pointers
    def known_new(self, F, s):
        return self.truth(app("variant", s), F)

    def cyclic_aligned(self, F, st, und, sev, dev):
        n, un = 0, False
        for s, ptr in st["learn"]:
            w = self.known_new(F, s)
            if w is None:
                un = True
            elif w == 0:
                n += 1
        if un:
            self.report("numbering", None, "unknown result of learn_cyclic", sev)
            return
        ok = n == len(st["resv"])
        self.report("numbering", ok or (None if und else False),
                    f"{n} shared objects are numbered by the writer and {len(st['resv'])} by the reader before the contents", dev)

    def settle(self, F, st):
        """Numbered objects are paired in order; remembered for the end."""
        st = dict(st)
        new = [x for x in st["learn"] if self.known_new(F, x[0]) == 0]
        st["paired"] = st.get("paired", ()) + tuple(zip([x for x in new], st["resv"]))
        st["old"] = st.get("old", ()) + tuple(x for x in st["learn"] if self.known_new(F, x[0]) != 0)
        st["learn"], st["resv"] = (), ()
        return st

    def final(self, se, v, F, st, und, sev, dev):
        self.ends += 1
        if v.op == "agg" and v.a[0] == RESULT:
            if v.a[1] == 1:
                self.report("result", True if self.external(v) else None if und else False, f"reading reports the error {show(v)[:100]} although everything was read", dev)
                return
            v = v.a[2][0]
        elif v.op == "call":
            # the result of a conversion handed on
            v = mk("fld", v, 0, 0)
        S = deref(self.sself)
        self.cyclic_aligned(F, st, und, sev, dev)
        st = self.settle(F, st)
        known_learn = st.get("paired", ()), st.get("old", ())
        self.F, self.st = F, st
        r = self.same(v, S, F)
        if und and r is False and point(F, self.quantity) is None:
            r = None
        self.report("value", r, f"value read {show(v)[:200]} against value written {show(S)}", dev)
        # everything numbered is remembered, with the value that is returned
        for (s, ptr), cid in st.get("paired", ()):
            fl = [f for f in st["filled"] if f[0] is cid]
            self.report("remember", bool(fl) or (None if und else False), "a numbered shared object is not remembered by the reader", dev)
            if len(fl) >= 1:
                c, fv, ty, e = fl[-1]
                self.report("remember-value", True if fv is v else (self.same(fv, S, F) is not False and None), f"the remembered value is {show(fv)[:100]}, the returned {show(v)[:100]}", e)
                p = self.pointer(ptr)
                self.report("identity", (True if p is S else False if self.definite(p) else None) if not und else None,
                            f"the identity of a shared object is {show(ptr)[:120]}", dev)

    def pointer(self, ptr):
        while ptr.op == "pcast":
            ptr = ptr.a[2]
        if ptr.op == "app" and ptr.a[0] == "rcptr":
            return ptr.a[1][0]
        return app("notshared", ptr)

    def definite(self, p):
        return p.op == "app" and p.a[0] == "notshared" and (p.a[1][0].op in ("ref", "sym", "&", "int") or p.a[1][0] is self.sself) or self.path(p)

    def external(self, v):
        return any(x.op == "call" and "eserialize" not in x.a[0] for x in subterms(v))

    # ---------------------------------------------------------------- equality of values
    def path(self, t):
        """A term made of components of the value being sent."""
        while True:
            if t is self.sself:
                return True
            if t.op in ("fld", "deref"):
                t = t.a[0]
            elif t.op == "app" and t.a[0] in ("view", "elem", "sub", "inner"):
                t = t.a[1][1] if t.a[0] == "view" else t.a[1][0]
            elif t.op == "hav":
                return False
            else:
                return False

    SETS = ("BTreeSet", "HashSet", "BinaryHeap")
    MAPS = ("HashMap", "BTreeMap")

    def same(self, v, s, F, d=0):
        if v is s:
            return True
        if d > 14:
            return None
        if d == 0:
            # values that went through an operation known not to keep them
            ch = [x for x in subterms(v) if x.op == "app" and x.a[0] == "changed"]
            if ch:
                back = lambda t: self.ev(rewrite(t, lambda x: x.a[1][1] if x.op == "app" and x.a[0] == "changed" else None), {})
                F0 = {}
                for t, w in F.items():
                    F0[back(t)] = w
                return False if self.same(back(v), s, F0, 1) is True else None
        eq = lambda a, b: self.same(a, b, F, d + 1)
        if v.op == "app" and v.a[0] in ("conv", "rebox") and len(v.a[1]) >= 2:
            x = v.a[1][-1]
            return self.same_conv(x, s, F, d, v.a[1][0])
        if v.op == "app" and v.a[0] == "handle":
            return self.same_handle(v, s, d)
        if v.op == "app" and v.a[0] == "owned":
            x = v.a[1][0]
            if x.op == "app" and x.a[0] == "fdof":
                return self.same_conv(x.a[1][0], s, F, d, None)
            return None
        if v.op == "app" and v.a[0] == "shared":
            cid = v.a[1][0]
            # the number the writer found for the pointer of this very object
            for l in self.st.get("old", ()) + tuple(x[0] for x in self.st.get("paired", ())) + self.st["learn"]:
                if cid is mk("fld", l[0], 1, 0):
                    p = self.pointer(l[1])
                    return True if p is s else False if self.definite(p) else None
            return False if cid.op == "int" else None
        if v.op == "deref" and v.a[0].op == "app" and v.a[0].a[0] == "ref_of":
            return eq(v.a[0].a[1][0], s)
        if v.op == "call" and v.a[0].split("::")[-1] in ("new", "from") and v.a[0].split("::")[0] in ("Rc", "Arc", "Box") and len(v.a[1]) == 1:
            return eq(v.a[1][0], deref(s))
        if v.op == "app" and v.a[0] in ("new_rc", "new_box") and len(v.a[1]) == 1:
            return eq(v.a[1][0], deref(s))
        if v.op == "app" and v.a[0] == "setthin":
            return self.same_box(v, s, F, d)
        if v.op == "app" and v.a[0] == "heap":
            return eq(v.a[1][0], deref(s))
        if v.op == "app" and v.a[0] == "ptr_at":
            x = v.a[1][0]
            if x.op == "app" and x.a[0] == "addr":
                return eq(x.a[1][0], s)
            return False if (x.op == "lin" and any(t.op == "app" and t.a[0] == "addr" for t in subterms(x))) else None
        if v.op == "app" and v.a[0] == "reinterp" and len(v.a[1]) == 3 and s.op != "app":
            pass
        if v.op == "app" and v.a[0] == "coll":
            return self.same_coll(v, s, F, d)
        if v.op == "app" and v.a[0] == "of_view" and len(v.a[1]) == 2:
            return eq(v.a[1][1], app("view", v.a[1][0], s))
        if s.op == "app" and s.a[0] == "view" and v.op == "app" and v.a[0] == "view":
            if v.a[1][0] is s.a[1][0]:
                return eq(v.a[1][1], s.a[1][1])
        if (v.op == "app" and v.a[0] in ("new", "uninit") or v.op == "uninit") and (self.path(s) or s.op == "call"):
            rs = [self.truth(compare("Eq", self.length(x), num(0)), F) for x in (s, deref(s))]
            return True if 1 in rs else False if 0 in rs else None
        if v.op == "agg":
            if s.op == "agg":
                if v.a[1] != s.a[1] or len(v.a[2]) != len(s.a[2]):
                    return False
                return self.all(eq(a, b) for a, b in zip(v.a[2], s.a[2]))
            if v.a[0] == "array":
                ln = self.length(s)
                rs = [True if self.truth(compare("Eq", ln, num(len(v.a[2]))), F) == 1 else None]
                return self.all(rs + [eq(x, self.elem(s, num(i))) for i, x in enumerate(v.a[2])])
            if self.path(s) or s.op in ("call", "fld"):
                return self.same_agg(v, s, F, d)
            return None
        if v.op == "int" and s.op == "int":
            return v.a[0] == s.a[0]
        w = self.truth(s, F) if v.op == "int" else None
        if w is not None:
            return w == v.a[0]
        from lin import eq as lineq
        if v.op in ("lin", "int", "fld") and s.op in ("lin", "int", "fld") and (v.op == "lin" or s.op == "lin"):
            if lineq(v, s, F):
                return True
        if v.op == "fld" and v.a[0].op == "call":
            # Ok value of a conversion
            c = v.a[0]
            if c.a[1] and len(c.a[1]) == 1:
                return True if eq(c.a[1][0], s) else None
            return None
        if v.op == "app" and s.op == "app" and v.a[0] == s.a[0] == "elem" and v.a[1][0] is s.a[1][0] and lineq(v.a[1][1], s.a[1][1], F):
            return True
        if v.op == "app" and v.a[0] == "trunc" and v.a[1][1] is s:
            return False
        if self.path(v) and self.path(s):
            plain = lambda t: rewrite(t, lambda x: app("elem", app("view", mk("str", "bytes"), x.a[1][0].a[1][1]), x.a[1][1])
                                      if x.op == "app" and x.a[0] == "elem" and x.a[1][0].op == "app" and x.a[1][0].a[0] == "view" and x.a[1][0].a[1][0].a[0] == "bytes_nul" else None)
            return plain(v) is plain(s)
        if v.op == "int" and self.path(s):
            return False
        return None

    @staticmethod
    def all(rs):
        rs = list(rs)
        if any(r is False for r in rs):
            return False
        return True if all(r is True for r in rs) else None

    def same_agg(self, v, s, F, d):
        kind = v.a[0]
        variants = 1
        if isinstance(kind, tuple) and kind[0] == "adt":
            a = self.ops.A.db.adts.get(kind[1])
            if a is not None:
                variants = len(a["variants"])
            elif kind[1].split("::")[-1] in ("Option", "Result"):
                variants = 2
        rs = []
        multi = variants > 1
        if multi:
            w = self.truth(app("variant", s), F)
            if w is None:
                ex = F.get(app("variant", s))
                if isinstance(ex, frozenset):
                    left = [i for i in range(variants) if i not in ex]
                    if len(left) == 1:
                        w = left[0]
                    elif v.a[1] in ex:
                        return False
            if w is None:
                rs.append(None)
            elif w != v.a[1]:
                p = self.packaged(v, s, F, d)
                return p
        for i, x in enumerate(v.a[2]):
            y = self.fld(s, v.a[1] if multi else None, i)
            r = self.same(x, y, F, d + 1)
            if r is not True:
                # fields of single-variant types may be named with their variant
                y2 = self.fld(s, v.a[1], i)
                if y2 is not y:
                    r = self.same(x, y2, F, d + 1)
            if r is not True and x.op == "agg" and not x.a[2]:
                r = True
            rs.append(r)
        return self.all(rs)

    def packaged(self, v, s, F, d):
        """A variant that holds another variant's contents in serialized form."""
        if len(v.a[2]) != 2:
            return False
        intov = [x for x in v.a[2] if x.op == "call" and x.a[0].endswith("into_vec")]
        if not intov:
            return False
        self.package = (v, s)
        return self.check_package(v, s, F, d)

    def check_package(self, v, s, F, d):
        """(bytes, handles) of a separate serializer that holds exactly one value: the other variant's contents."""
        intov = [x for x in v.a[2] if x.op == "call" and x.a[0].endswith("into_vec")][0]
        other = [x for x in v.a[2] if x is not intov]
        w = self.truth(app("variant", s), F)
        if w is None or len(other) != 1:
            return None
        value = self.fld(s, w, 0)
        evs = {}
        for p in positions(self.sg, lambda e: e.kind == "call" and e.res is not None):
            evs.setdefault(p.ev.res, p.ev)
        e = evs.get(intov)
        if e is None:
            return None
        # what happened to that serializer, last operation first
        cur, hist = e.args[0], []
        for _ in range(20):
            if cur.op != "hav":
                break
            c = evs.get(cur.a[0])
            op = self.ops.keys.get(c.key) if c is not None else None
            if op is None:
                return None
            hist.append((op[1], c))
            a = [x for x in (c.deep or c.args) if x.op == "&" or x.op == "ref"]
            slot = cur.a[1]
            arg = (c.deep or c.args)[slot] if isinstance(slot, int) and slot < len(c.args) else None
            if arg is None:
                return None
            cur = strip(arg)
        new = evs.get(cur)
        if new is None or self.ops.keys.get(new.key, ("", ""))[1] not in ("new", "default"):
            return None if cur.op != "agg" else False
        names = [n for n, _ in hist]
        sers = [c for n, c in hist if n in ("serialize", "serialize_self", "serialize_self_non_trivial")]
        if any(n not in ("serialize", "serialize_self", "serialize_self_non_trivial", "drain_handles") for n in names):
            return None
        if len(sers) != 1:
            return False
        a = sers[0].deep or sers[0].args
        n = self.ops.keys[sers[0].key][1]
        src = strip(a[1] if n == "serialize" else a[0])
        rs = [True if src is value else None if not self.path(src) else False]
        drains = [c for n, c in hist if n == "drain_handles"]
        if len(drains) != 1:
            rs.append(False if not drains else None)
        else:
            # handles are taken after the value was encoded
            rs.append(names.index("drain_handles") < [i for i, (n, c) in enumerate(hist) if c is sers[0]][0])
            rs.append(self.same(other[0], drains[0].res, F, d + 1))
        return self.all(rs)

    def segments(self, v):
        """A collection filled piece by piece: [(length, k, body)] in order, or None."""
        out = []
        while v.op == "app" and v.a[0] == "coll":
            kind, init, n, k, body = v.a[1]
            if out and kind.a[0] != out[0][0]:
                return None
            out.append((kind.a[0], n, k, body))
            v = init
        if not (v.op == "app" and v.a[0] in ("new", "with_capacity")) or any(x[0].endswith("<") for x in out):
            return None
        return [x[1:] for x in reversed(out)]

    def same_coll(self, v, s, F, d):
        kind, init, n, k, body = v.a[1]
        kd = kind.a[0]
        from lin import eq as lineq
        if init.op == "app" and init.a[0] == "coll" and kd not in self.SETS + self.MAPS:
            segs = self.segments(v)
            if segs is None:
                return None
            off, rs = num(0), []
            for n_, k_, body_ in segs:
                if lineq(n_, num(0), F):
                    continue
                rs.append(self.same(body_, self.elem(s, add(off, k_)), F, d + 1))
                off = add(off, n_)
            rs.append(True if lineq(off, self.length(s), F) or lineq(off, self.length(deref(s)), F) else None)
            return self.all(rs)
        if not (init.op == "app" and init.a[0] in ("new", "uninit", "with_capacity") or init is UNINIT or init.op in ("uninit", "call", "sym", "agg") or kd == "array"):
            return None
        ln = self.length(s)
        from lin import eq as lineq
        if not lineq(n, ln, F) and lineq(n, self.length(deref(s)), F):
            s = deref(s)
            ln = self.length(s)
        if not lineq(n, ln, F):
            if n.op == "app" and n.a[0] == "trunc" and n.a[1][1] is ln:
                return False      # the number of elements does not fit
            if self.truth(compare("Eq", n, ln), F) is None and differ(n, ln, F, self.quantity) is None:
                return None
            return False
        e = self.elem(s, k)
        if s.op == "call" and s.a[0].endswith("drain_handles"):
            e = mk("app", "handle", (e,))
            return True if body is e else None
        if kd.endswith("<"):
            # filled from the front: in reverse
            rev = self.elem(s, sub(sub(ln, num(1)), k))
            if kd[:-1] in ("LinkedList", "VecDeque"):
                return True if self.same(body, rev, F, d + 1) is True else False if self.same(body, e, F, d + 1) is True else None
        if kd in self.MAPS and body.op == "agg" and len(body.a[2]) == 2:
            return self.all(self.same(body.a[2][i], self.fld(e, None, i), F, d + 1) for i in (0, 1))
        r = self.same(body, e, F, d + 1)
        if r is False and kd not in self.SETS + self.MAPS:
            return False
        if r is False and kd in self.SETS:
            return None
        return r

    def same_handle(self, v, s, d):
        h = v.a[1][0]
        while h.op in ("pcast", "cast"):
            h = h.a[-1]
        if h.op == "app" and h.a[0] == "fdof":
            x = h.a[1][0]
            if x is s:
                return True
            return False if self.path(x) and self.path(s) and not self.prefix(s, x) else None
        return None

    def prefix(self, a, b):
        """Is a component b inside (or reached from) a?"""
        return any(x is a for x in subterms(b))

    def same_conv(self, x, s, F, d, ty):
        """x converted to the type of s denotes the same resource."""
        if x is s:
            return True
        if x.op == "app" and x.a[0] == "handle":
            h = x.a[1][0]
            if h.op == "app" and h.a[0] == "fdof":
                y = h.a[1][0]
                if y is s:
                    return True
                if self.prefix(s, y):
                    return True
                return False if self.path(y) else None
            return None
        if x.op == "app" and x.a[0] == "conv":
            return self.same_conv(x.a[1][-1], s, F, d + 1, ty)
        # written through a borrowed view of the same object
        if (x.op == "deref" or x.op == "app" and x.a[0] in ("inner", "view")) and self.prefix(s, x):
            return True
        if x.op == "app" and x.a[0] == "coll":
            return self.same_coll(x, s, F, d + 1)
        if self.path(x) and self.path(s):
            return True if self.prefix(s, x) else False
        r = self.same(x, s, F, d + 1)
        return r if r is True else None

    def same_box(self, v, s, F, d):
        ty, meta, thin = v.a[1]
        r = self.same(thin, s, F, d + 1)
        size = None
        for t, w in F.items():
            if t.op == "app" and t.a[0] == "size_of" and isinstance(w, int):
                size = w
        if size == 8:
            return r
        # the method table is the original's
        m = meta
        if m.op == "app" and m.a[0] == "transmute" and m.a[1][2].op == "agg" and len(m.a[1][2].a[2]) == 2:
            vt = m.a[1][2].a[2][1]
            ok = vt.op == "fld" and vt.a[2] == 1 and vt.a[0].op == "app" and vt.a[0].a[0] == "transmute" and vt.a[0].a[1][2] is s
            return self.all([r, True if ok else False if vt.op in ("int", "fn", "fld") or show(vt) == "$null" else None])
        return None if r is not False else False


RESULT = None
OPTION = None


def antiunify(a, b, J):
    """A term in J that is a for J = 0 and b for J = 1, or None."""
    if a is b:
        return a
    if not isinstance(a, Term) or not isinstance(b, Term):
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            r = [antiunify(x, y, J) for x, y in zip(a, b)]
            return None if any(x is None and y is not None for x, y in zip(r, a)) else tuple(r)
        return a if a == b else None
    if a.op in ("int", "lin") or b.op in ("int", "lin"):
        d = sub(b, a)
        return add(a, mul(d, J)) if d.op == "int" else None
    if a.op != b.op or len(a.a) != len(b.a) or a.op in ("phi", "sym", "ref"):
        return None
    r = []
    for x, y in zip(a.a, b.a):
        z = antiunify(x, y, J)
        if z is None and x is not None:
            return None
        r.append(z)
    return T_.rebuild(a.op, tuple(r))


class Loop(Exception):
    def __init__(self, frame, senv, denv):
        self.frame, self.senv, self.denv = frame, senv, denv


class Expand(Exception):
    pass


def raise_or_record(p, fr, senv, denv, F, st):
    if fr["mode"] == "raw":
        raise Loop(fr, senv, denv)
    fr["revisits"].append((senv, denv, F))


import models as _m  # noqa: E402
RESULT = _m.RESULT
OPTION = ("adt", "core::option::Option")


class Codecs:
    """All codec pairs of a program."""

    def __init__(self, A):
        from interp import Interp
        self.A = A
        self.ops = Ops(A)
        A.db_nt = None
        for t in A.db.impls_by_trait:
            if t.split("::")[-1] == "NonTrivialObject":
                A.db_nt = t
        self.ip = Interp(A.db)

    def impls(self):
        """[(type, serialize key, deserialize key, impl)]"""
        out = []
        for im in self.A.db.impls_by_trait.get(self.A.db_nt, ()):
            s = d = None
            for name, k, kind, ty in im["items"]:
                if name == "serialize_self_non_trivial":
                    s = k
                if name == "deserialize_self_non_trivial":
                    d = k
            out.append((im["args"][0], s, d, im))
        return out

    def trivial(self, key):
        """A body that only panics (plain data never goes through it)."""
        b = self.A.db.bodies.get(key)
        if b is None:
            return None
        return not any(x["t"][0] in ("return", "ret") for x in b.blocks) if b.blocks and isinstance(b.blocks[0]["t"], (list, tuple)) else None

    def pair(self, skey, dkey, label, env=None, ty=None):
        A = self.A
        expand = frozenset()
        for attempt in range(6):
            f = self.ops.opaque(expand)
            sg = A.run(skey, env=env, opaque=f)
            dg = A.run(dkey, env=env, opaque=f)
            sself = mk("sym", "arg", 1, self.argname(skey, 0))
            smain = mk("sym", "arg", 2, self.argname(skey, 1))
            dmain = mk("sym", "arg", 1, self.argname(dkey, 0))
            p = Pair(self.ops, self.ip, sg, smain, sself, dg, dmain, label)
            if ty is not None and ty[0] == "array":
                p.self_len = (deref(sself), _m.kconst(ty[2]))
            if sg.incomplete or dg.incomplete:
                p.report("shape", None, "not fully explored: " + str((sg.incomplete or dg.incomplete)[:1])[:200])
            try:
                p.run()
            except Expand:
                expand = expand | frozenset(p.want)
                continue
            p.expanded = expand
            return p
        p.reports = [("shape", None, "too many nested types to expand", None)]
        return p

    def argname(self, key, i):
        b = self.A.db.bodies[key]
        return b.names_by_local.get(i + 1, str(i + 1))
