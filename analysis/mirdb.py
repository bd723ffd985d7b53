"""Load the JSON dumps written by the extractor and give access to the type-checked program.

Types are interned Python tuples:
  ('bool',) ('char',) ('str',) ('never',) ('int', name) ('float', name)
  ('adt', key, args) ('array', t, const) ('slice', t) ('ptr', mut, t) ('ref', mut, t)
  ('fndef', key, args) ('fnptr', ins, out, unsafe) ('dyn', traits, projs, autos)
  ('closure', key, parent_args, upvars) ('coroutine', key, parent_args, upvars)
  ('tuple', ts) ('alias', kind, key, args) ('param', name, idx) ('other', s)
Generic arguments are types or ('kint', n) / ('kparam', name, idx) / ('kother', s).
"""
import json
import os


class Body:
    __slots__ = ("key", "file", "line", "argc", "locals", "names", "blocks", "crate", "spread",
                 "_back", "_preds", "inst", "names_by_local")


def T(*a):
    return tuple(a)


class DB:
    def __init__(self, paths):
        self.bodies = {}
        self.defs = {}
        self.adts = {}
        self.impls = []
        self.traits = {}
        self.statics = {}
        self.fn_preds = {}
        self.crates = []
        self._short = {}
        for p in paths:
            self._load(p)
        self.impls_by_trait = {}
        for im in self.impls:
            self.impls_by_trait.setdefault(im["trait"], []).append(im)
        self.trait_item_impl = {}

    # ---- loading -------------------------------------------------------------------------------
    def _load(self, path):
        with open(path) as f:
            d = json.load(f)
        crate = d["crate"]
        self.crates.append(crate)
        raw = d["types"]
        cache = [None] * len(raw)

        def garg(a):
            if isinstance(a, int):
                return ty(a)
            return tuple(a)

        def gargs(l):
            return tuple(garg(a) for a in l)

        def ty(i):
            if cache[i] is not None:
                return cache[i]
            r = raw[i]
            k = r[0]
            if k in ("bool", "char", "str", "never", "int", "float", "param", "other"):
                t = tuple(r)
            elif k == "adt":
                t = (k, r[1], gargs(r[2]))
            elif k == "array":
                t = (k, ty(r[1]), tuple(r[2]))
            elif k == "slice":
                t = (k, ty(r[1]))
            elif k in ("ptr", "ref"):
                t = (k, r[1], ty(r[2]))
            elif k == "fndef":
                t = (k, r[1], gargs(r[2]))
            elif k == "fnptr":
                t = (k, tuple(ty(x) for x in r[1]), ty(r[2]), r[3])
            elif k == "dyn":
                t = (k, tuple((x[0], gargs(x[1])) for x in r[1]),
                     tuple((x[0], garg(x[1])) for x in r[2]), tuple(r[3]))
            elif k in ("closure", "coroutine"):
                t = (k, r[1], gargs(r[2]), tuple(ty(x) for x in r[3]))
            elif k == "tuple":
                t = (k, tuple(ty(x) for x in r[1]))
            elif k == "alias":
                t = (k, r[1], r[2], gargs(r[3]))
            else:
                t = tuple(["other", json.dumps(r)])
            cache[i] = t
            return t

        def proj(p):
            out = []
            for e in p:
                if e == "*":
                    out.append(("*",))
                elif e[0] == "f":
                    out.append(("f", e[1], ty(e[2])))
                else:
                    out.append(tuple(e))
            return tuple(out)

        def place(p):
            return (p[0], proj(p[1]))

        def operand(o):
            if o[0] in ("c", "m"):
                return (o[0], place(o[1]))
            if o[0] == "k":
                c = dict(o[2])
                if "args" in c:
                    c["args"] = gargs(c["args"])
                return ("k", ty(o[1]), c)
            return tuple(o)

        def rvalue(r):
            k = r[0]
            if k == "use":
                return (k, operand(r[1]))
            if k == "repeat":
                return (k, operand(r[1]), tuple(r[2]))
            if k in ("ref", "addr"):
                return (k, r[1], place(r[2]))
            if k == "cast":
                return (k, r[1], operand(r[2]), ty(r[3]))
            if k == "bin":
                return (k, r[1], operand(r[2]), operand(r[3]))
            if k == "un":
                return (k, r[1], operand(r[2]))
            if k == "discr":
                return (k, place(r[1]))
            if k == "agg":
                kk = r[1]
                if kk[0] in ("adt", "array", "closure", "coroutine", "rawptr"):
                    kk = (kk[0], ty(kk[1])) + tuple(kk[2:])
                else:
                    kk = tuple(kk)
                return (k, kk, tuple(operand(o) for o in r[2]))
            return tuple(r)

        def stmt(s):
            if s[0] == "=":
                return ("=", place(s[1]), rvalue(s[2]), s[3])
            if s[0] == "sdisc":
                return ("sdisc", place(s[1]), s[2], s[3])
            return tuple(s)

        def term(t):
            k = t[0]
            if k == "switch":
                return (k, operand(t[1]), tuple((int(v), b) for v, b in t[2]), t[3], t[4], ty(t[5]))
            if k == "drop":
                return (k, place(t[1]), t[2], t[3], ty(t[4]), t[5], t[6])
            if k == "call":
                c = t[1]
                if c[0] == "fn":
                    c = ("fn", c[1], gargs(c[2])) + ((c[3], gargs(c[4])) if len(c) > 3 else ())
                else:
                    c = ("val", operand(c[1]), ty(c[2]))
                return (k, c, tuple(operand(a) for a in t[2]), place(t[3]), t[4], t[5], ty(t[6]), t[7])
            if k == "assert":
                return (k, operand(t[1]), t[2], t[3], t[4], t[5], t[6])
            if k == "yield":
                return (k, operand(t[1]), t[2], place(t[3]), t[4])
            return tuple(t)

        for b in d["bodies"]:
            o = Body()
            o.key = b["key"]
            o.crate = crate
            o.file = b["file"]
            o.line = b["line"]
            o.argc = b["argc"]
            o.spread = b.get("spread")
            o.locals = [ty(x) for x in b["locals"]]
            o.names = [(place(p), n) for p, n in b["names"]]
            o.names_by_local = {}
            for (l, pr), n in o.names:
                if not pr:
                    o.names_by_local.setdefault(l, n)
            o.blocks = [dict(s=[stmt(s) for s in x["s"]], t=term(x["t"]), c=x["c"]) for x in b["blocks"]]
            o._back = None
            self.bodies[o.key] = o
        for im in d["impls"]:
            im = dict(im)
            im["crate"] = crate
            im["args"] = gargs(im["args"])
            im["preds"] = [self._pred(p, gargs, garg) for p in im["preds"]]
            im["items"] = [(i[0], i[1], i[2], ty(i[3]) if len(i) > 3 else None) for i in im["items"]]
            self.impls.append(im)
        for t in d["traits"]:
            t = dict(t)
            t["preds"] = [self._pred(p, gargs, garg) for p in t["preds"]]
            self.traits[t["key"]] = t
        for s in d["statics"]:
            s = dict(s)
            s["ty"] = ty(s["ty"])
            self.statics[s["key"]] = s
        for k, p in d["fn_preds"]:
            self.fn_preds[k] = [self._pred(x, gargs, garg) for x in p]
        for k, a in d["adts"].items():
            if k in self.adts:
                continue
            a = dict(a)
            a["variants"] = [dict(name=v["name"], discr=v["discr"],
                                  fields=[(f[0], ty(f[1]), f[2]) for f in v["fields"]])
                             for v in a["variants"]]
            self.adts[k] = a
        for k, x in d["defs"].items():
            x = dict(x)
            if "self_ty" in x:
                x["self_ty"] = ty(x["self_ty"])
            if "inputs" in x:
                x["inputs"] = [ty(i) for i in x["inputs"]]
                x["output"] = ty(x["output"])
            if k not in self.defs or x.get("local"):
                self.defs[k] = x

    @staticmethod
    def _pred(p, gargs, garg):
        if p[0] == "trait":
            return ("trait", p[1], gargs(p[2]))
        return ("proj", p[1], gargs(p[2]), garg(p[3]))

    # ---- names ---------------------------------------------------------------------------------
    def short(self, key):
        """A canonical readable name: Type::method for inherent and trait-impl methods (trait impls as
        Trait::method), the full path otherwise."""
        r = self._short.get(key)
        if r is not None:
            return r
        d = self.defs.get(key)
        r = key
        if d is not None and "name" in d:
            c = d.get("container")
            if c == "inherent":
                r = tyname(d["self_ty"]) + "::" + d["name"]
            elif c == "impl":
                ti = d.get("trait_item")
                r = (self.short(ti) if ti else key)
            elif c == "trait":
                par = d.get("parent", "")
                r = par.split("::")[-1] + "::" + d["name"]
        self._short[key] = r
        return r

    def adt(self, key):
        return self.adts.get(key)

    # ---- CFG helpers -----------------------------------------------------------------------------
    def succs(self, body, bb):
        t = body.blocks[bb]["t"]
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [b for _, b in t[2]] + [t[3]]
        if k == "drop":
            return [t[2]]
        if k == "call":
            return [t[4]] if t[4] is not None else []
        if k == "assert":
            return [t[3]]
        if k == "yield":
            return [t[2]]
        return []

    def back_edges(self, body):
        if body._back is not None:
            return body._back
        order, seen = [], set()
        stack = [(0, iter(self.succs(body, 0)))]
        seen.add(0)
        while stack:
            n, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succs(body, s))))
                    break
            else:
                order.append(n)
                stack.pop()
        order.reverse()
        idx = {n: i for i, n in enumerate(order)}
        preds = {n: [] for n in order}
        for n in order:
            for s in self.succs(body, n):
                preds[s].append(n)
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for n in order[1:]:
                new = None
                for p in preds[n]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            a, b = p, new
                            while a != b:
                                while idx[a] > idx[b]:
                                    a = idom[a]
                                while idx[b] > idx[a]:
                                    b = idom[b]
                            new = a
                if new is not None and idom.get(n) != new:
                    idom[n] = new
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]
        back = set()
        for n in order:
            for s in self.succs(body, n):
                if dom(s, n):
                    back.add((n, s))
        body._back = back
        return back


def tyname(t):
    k = t[0]
    if k == "adt":
        return t[1].split("::")[-1]
    if k in ("int", "float"):
        return t[1]
    if k in ("slice", "str", "bool", "char", "array", "tuple", "ptr", "ref"):
        return k
    if k == "param":
        return t[1]
    return k


def tystr(t):
    if not isinstance(t, tuple):
        return str(t)
    k = t[0]
    if k in ("bool", "char", "str"):
        return k
    if k == "never":
        return "!"
    if k in ("int", "float", "param", "other"):
        return t[1]
    if k == "adt":
        a = ", ".join(tystr(x) for x in t[2])
        return t[1].split("::")[-1] + (f"<{a}>" if a else "")
    if k == "array":
        return f"[{tystr(t[1])}; {t[2][1]}]"
    if k == "slice":
        return f"[{tystr(t[1])}]"
    if k == "ref":
        return ("&mut " if t[1] else "&") + tystr(t[2])
    if k == "ptr":
        return ("*mut " if t[1] else "*const ") + tystr(t[2])
    if k == "tuple":
        return "(" + ", ".join(tystr(x) for x in t[1]) + ("," if len(t[1]) == 1 else "") + ")"
    if k == "fnptr":
        return "fn(" + ", ".join(tystr(x) for x in t[1]) + ") -> " + tystr(t[2])
    if k == "dyn":
        return "dyn " + "+".join(x[0].split("::")[-1] + ("<" + ", ".join(tystr(y) for y in x[1]) + ">" if x[1] else "") for x in t[1])
    if k in ("closure", "coroutine", "fndef"):
        return f"{k}@{t[1]}"
    if k == "alias":
        return "<" + ", ".join(tystr(x) for x in t[3]) + ">::" + t[2].split("::")[-1]
    if k in ("kint", "kparam"):
        return str(t[1])
    return str(t)


def subst(t, env):
    """Substitute generic parameters by index. env: tuple of generic arguments indexed like rustc's
    (lifetimes removed), given as dict idx->arg."""
    if env is None or not isinstance(t, tuple):
        return t
    k = t[0]
    if k == "param":
        return env.get(t[2], t)
    if k == "kparam":
        return env.get(t[2], t)
    if k in ("bool", "char", "str", "never", "int", "float", "other", "kint", "kother"):
        return t
    if k == "adt" or k == "fndef":
        return (k, t[1], tuple(subst(x, env) for x in t[2]))
    if k == "array":
        return (k, subst(t[1], env), subst(t[2], env))
    if k == "slice":
        return (k, subst(t[1], env))
    if k in ("ptr", "ref"):
        return (k, t[1], subst(t[2], env))
    if k == "fnptr":
        return (k, tuple(subst(x, env) for x in t[1]), subst(t[2], env), t[3])
    if k == "dyn":
        return (k, tuple((x[0], tuple(subst(y, env) for y in x[1])) for x in t[1]),
                tuple((x[0], subst(x[1], env)) for x in t[2]), t[3])
    if k in ("closure", "coroutine"):
        return (k, t[1], tuple(subst(x, env) for x in t[2]), tuple(subst(x, env) for x in t[3]))
    if k == "tuple":
        return (k, tuple(subst(x, env) for x in t[1]))
    if k == "alias":
        return (k, t[1], t[2], tuple(subst(x, env) for x in t[3]))
    return t


def contains_param(t):
    if not isinstance(t, tuple):
        return False
    if t and t[0] in ("param", "kparam"):
        return True
    return any(contains_param(x) for x in t if isinstance(x, tuple))


def unify(pat, t, env):
    """Match pattern (with params) against a type. env: idx->type, mutated. True on success."""
    if isinstance(pat, tuple) and pat and pat[0] in ("param", "kparam"):
        if pat[2] in env:
            return env[pat[2]] == t
        env[pat[2]] = t
        return True
    if type(pat) is not type(t):
        return False
    if isinstance(pat, tuple):
        if len(pat) != len(t):
            return False
        return all(unify(a, b, env) for a, b in zip(pat, t))
    return pat == t


def env_of(db, key, args):
    """Generic environment (idx -> arg) for an item instantiated with args (parent first)."""
    d = db.defs.get(key)
    if d is None or "generics" not in d:
        return {}
    return {g[1]: a for g, a in zip(d["generics"], args)}
