"""Path-sensitive abstract interpretation of type-checked MIR by symbolic evaluation of values.

The result of a run is an exploded control-flow graph: nodes are (inlined call chain, basic block,
abstract state), edges carry the facts a branch establishes and, at loop heads, the assignment of the
loop-carried unknowns. Events (external calls, releases of values, suspensions, returns) are attached
to nodes and edges. There is no solver: facts are equalities and disequalities between terms and
constants, and a branch whose fact contradicts an earlier one is not followed.
"""
from terms import *
from mirdb import subst, unify, env_of, tystr, contains_param, tyname


class Undecided(Exception):
    pass


class Ctx:
    __slots__ = ("id", "parent", "bb", "key", "body", "env", "post", "depth", "chain", "loops")


class Ev:
    __slots__ = ("kind", "name", "key", "args", "deep", "res", "line", "file", "ctx", "bb", "targs", "facts", "ty",
                 "where", "state")

    def __init__(self, kind, name=None, **kw):
        self.kind = kind
        self.name = name
        for s in ("key", "args", "deep", "res", "line", "file", "ctx", "bb", "targs", "facts", "ty", "where", "state"):
            setattr(self, s, kw.get(s))

    def __repr__(self):
        return f"{self.kind}:{self.name}({', '.join(show(x) for x in (self.args or ()))}) -> {show(self.res) if self.res else ''} L{self.line}"


class State:
    __slots__ = ("mem", "facts", "loops")

    def __init__(self, mem=None, facts=None, loops=None):
        self.mem = mem if mem is not None else {}
        self.facts = facts if facts is not None else {}
        self.loops = loops if loops is not None else {}

    def copy(self):
        return State(dict(self.mem), dict(self.facts), dict(self.loops))

    def key(self):
        return (frozenset(self.mem.items()), frozenset(self.facts.items()), frozenset(self.loops.items()))

    def val(self, t):
        """Known value of an integer-like term."""
        if t.op == "int":
            return t.a[0]
        f = self.facts.get(t)
        if isinstance(f, int):
            return f
        if t.op == "un" and t.a[0] == "Not":
            v = self.val(t.a[1])
            if v in (0, 1):
                return 1 - v
        if t.op == "bin" and t.a[0] == "Eq" and t.a[2].op == "int":
            v = self.val(t.a[1])
            if v is not None:
                return int(v == t.a[2].a[0])
            f = self.facts.get(t.a[1])
            if f is not None and t.a[2].a[0] in f:
                return 0
        if t.op == "bin" and t.a[0] in ("BitOr", "BitAnd"):
            a, b = self.val(t.a[1]), self.val(t.a[2])
            if a is not None and b is not None:
                return a | b if t.a[0] == "BitOr" else a & b
            if t.a[0] == "BitAnd" and (a == 0 or b == 0):
                return 0
        return None

    def assume(self, t, v, neq=False):
        """Record t == v (or t != v). False when impossible."""
        k = self.val(t)
        if k is not None:
            return (k != v) if neq else (k == v)
        if t.op == "un" and t.a[0] == "Not" and v in (0, 1):
            return self.assume(t.a[1], 1 - v, neq)
        if t.op == "bin" and t.a[0] == "Eq" and t.a[2].op == "int" and v in (0, 1):
            want = (v == 1) != neq
            if not self.assume(t.a[1], t.a[2].a[0], not want):
                return False
            return True
        if t.op == "bin" and t.a[0] == "BitAnd" and isbool(t.a[1]) and isbool(t.a[2]) and ((v == 1) != neq):
            return self.assume(t.a[1], 1) and self.assume(t.a[2], 1)
        if t.op == "bin" and t.a[0] == "BitOr" and isbool(t.a[1]) and isbool(t.a[2]) and ((v == 0) != neq):
            return self.assume(t.a[1], 0) and self.assume(t.a[2], 0)
        f = self.facts.get(t)
        if neq:
            self.facts[t] = (f or frozenset()) | {v}
            return True
        if f is not None and v in f:
            return False
        self.facts[t] = v
        return True


class Node:
    __slots__ = ("id", "ctx", "bb", "state", "events", "succs", "head", "phis", "preds", "dead", "inst")


class Edge:
    __slots__ = ("src", "dst", "facts", "events", "arrive", "assign", "target")


class Graph:
    pass


class Opts:
    def __init__(self, **kw):
        self.opaque = lambda short, key, args: False   # functions kept as events
        self.assume = []                                # predicates taken as known facts: list of (pred, bool)
        self.max_nodes = 80000
        self.max_point = 4000
        self.max_depth = 45
        self.hooks = {}
        self.pure = set()
        self.drive = True
        self.deep = 6                                   # how far references in events are followed
        for k, v in kw.items():
            setattr(self, k, v)


def isbool(t):
    return t.op == "bin" and t.a[0] in ("Eq", "Lt", "Ne") or t.op == "un" and t.a[0] == "Not" or \
        t.op == "bin" and t.a[0] in ("BitAnd", "BitOr") and isbool(t.a[1]) and isbool(t.a[2])


def is_const(v):
    if v.op in ("int", "str", "bytes"):
        return True
    return v.op == "agg" and v.a[0] in ("array", "tuple") and all(is_const(x) for x in v.a[2])


COLL = {"Vec", "VecDeque", "LinkedList", "BinaryHeap", "BTreeSet", "HashSet", "BTreeMap", "HashMap", "String"}
SEQ_DEREF = {"Vec", "String", "CString", "OsString", "PathBuf"}


def adtname(t):
    return t[1].split("::")[-1] if t[0] == "adt" else None


class Interp:
    def __init__(self, db, opts=None):
        self.db = db
        self.opts = opts or Opts()
        self.ctxs = []
        self.ctxtab = {}
        import models
        self.pymodels = models.MODELS
        self.models = models
        self._implcache = {}
        self.incomplete = []
        self.async_calls = set()

    # ------------------------------------------------------------------ contexts
    def ctx(self, parent, bb, key, body, env, post=None):
        ek = tuple(sorted(env.items()))
        k = (parent.id if parent else None, bb, key, ek, post)
        c = self.ctxtab.get(k)
        if c is None:
            c = Ctx()
            c.id = len(self.ctxs)
            c.parent, c.bb, c.key, c.body, c.env, c.post = parent, bb, key, body, env, post
            c.depth = parent.depth + 1 if parent else 0
            c.chain = (parent.chain if parent else ()) + (key,)
            c.loops = self.loop_bodies(body)
            self.ctxs.append(c)
            self.ctxtab[k] = c
        return c

    def loop_bodies(self, body):
        r = getattr(body, "inst", None)
        if r is not None:
            return r
        back = self.db.back_edges(body)
        preds = {}
        for i in range(len(body.blocks)):
            for s in self.db.succs(body, i):
                preds.setdefault(s, set()).add(i)
        heads = {}
        for n, h in back:
            m = heads.setdefault(h, {h})
            st = [n]
            while st:
                x = st.pop()
                if x not in m:
                    m.add(x)
                    st.extend(preds.get(x, ()))
        body.inst = heads
        return heads

    # ------------------------------------------------------------------ types
    def ty(self, ctx, t):
        return self.norm(subst(t, ctx.env))

    def norm(self, t):
        """Resolve associated-type aliases where the impl table determines them."""
        if not isinstance(t, tuple):
            return t
        if t and t[0] == "alias":
            args = tuple(self.norm(a) for a in t[3])
            r = self.assoc_type(t[2], args)
            if r is not None:
                return self.norm(r)
            return (t[0], t[1], t[2], args)
        if not any(isinstance(x, tuple) for x in t):
            return t
        return tuple(self.norm(x) if isinstance(x, tuple) else x for x in t)

    def assoc_type(self, key, args):
        d = self.db.defs.get(key)
        if not d or d.get("container") != "trait" or "name" not in d:
            return None
        im = self.find_impl(d["parent"], args)
        if im is None:
            return None
        impl, env = im
        for name, k, kind, ty in impl["items"]:
            if name == d["name"] and ty is not None:
                return subst(ty, env)
        return None

    def find_impl(self, trait, args, decide=None):
        """The impl of `trait` selected for these arguments: (impl, env) or None. `decide` decides
        predicates that are not determined (returns bool/None)."""
        k = (trait, args)
        if k in self._implcache:
            return self._implcache[k]
        cands = []
        tr = self.db.traits.get(trait)
        n = None
        for im in self.db.impls_by_trait.get(trait, ()):
            env = {}
            if len(im["args"]) > len(args):
                continue
            if unify(im["args"], tuple(args[:len(im["args"])]), env):
                ok = self.preds_hold(im["preds"], env)
                if ok is not False:
                    cands.append((im, env, ok))
        res = None
        yes = [c for c in cands if c[2] is True]
        if len(yes) == 1:
            res = yes[0][:2]
        elif not yes and len(cands) == 1:
            res = cands[0][:2]
        self._implcache[k] = res
        return res

    MARKERS = ("Sized", "Send", "Sync", "Unpin", "UnwindSafe", "RefUnwindSafe", "MetaSized", "PointeeSized",
               "Freeze", "Destruct", "Tuple")

    def preds_hold(self, preds, env):
        """True / False / list of undetermined atoms."""
        atoms = []
        for p in preds:
            if p[0] != "trait":
                continue
            r = self.implements(p[1], tuple(self.norm(subst(a, env)) for a in p[2]))
            if r is False:
                return False
            if r is not True:
                atoms.extend(r)
        return atoms or True

    def implements(self, trait, args, depth=0):
        """True / False / list of atoms (trait, args) that must all hold."""
        name = trait.split("::")[-1]
        if name in self.MARKERS:
            return True
        t = args[0] if args else None
        if t is None:
            return True
        for (tr, a), v in self.opts.assume:
            if tr == name and a == t:
                return v
        if t[0] in ("param", "alias", "dyn"):
            if t[0] == "dyn" and any(x[0] == trait for x in t[1]):
                return True
            return [(trait, args)]
        if depth > 12:
            return [(trait, args)]
        impls = self.db.impls_by_trait.get(trait, ())
        tr = self.db.traits.get(trait)
        local = tr is not None and tr.get("local", trait.startswith("crossmist") or trait.startswith("witness"))
        best = None
        for im in impls:
            env = {}
            if len(im["args"]) > len(args):
                continue
            if not unify(im["args"], tuple(args[:len(im["args"])]), env):
                continue
            atoms = []
            bad = False
            for p in im["preds"]:
                if p[0] != "trait":
                    continue
                r = self.implements(p[1], tuple(self.norm(subst(a, env)) for a in p[2]), depth + 1)
                if r is False:
                    bad = True
                    break
                if r is not True:
                    atoms.extend(r)
            if bad:
                continue
            if not atoms:
                return True
            if best is None or len(atoms) < len(best):
                best = atoms
        if best is not None:
            return best
        if name == "Copy" and t[0] in ("int", "bool", "char", "float", "never", "fndef", "fnptr", "ptr"):
            return True
        if name == "Copy" and t[0] == "ref":
            return not t[1]
        if local or name == "Copy" and t[0] == "adt" and (self.db.adt(t[1]) or {}).get("local"):
            return False
        if name in ("Copy",) and t[0] in ("str", "slice", "dyn"):
            return False
        return [(trait, args)]

    # ------------------------------------------------------------------ memory
    def default(self, root):
        if root[0] == "obj":
            p = root[1]
            if p.op == "app" and p.a[0] == "addr_of":
                return p.a[1][0]
            return mk("deref", p)
        if root[0] == "static":
            return mk("static", root[1])
        return UNINIT

    def rootval(self, st, root):
        v = st.mem.get(root)
        return self.default(root) if v is None else v

    def read(self, st, root, proj):
        v = self.rootval(st, root)
        for p in proj:
            v = self.pread(v, p)
        return v

    def pread(self, v, p):
        k = p[0]
        if v is UNINIT or v is MOVED or v.op == "done":
            return v
        if k == "f":
            idx, variant = p[1], p[2]
            if v.op == "agg":
                if (variant is None or v.a[1] == variant or v.a[1] is None) and idx < len(v.a[2]):
                    return v.a[2][idx]
                if variant is not None and v.a[1] != variant:
                    return mk("uninit")
            if v.op == "with":
                for q, x in v.a[1]:
                    if q == p or (q[0] == "f" and q[1] == idx and (q[2] is None or variant is None)):
                        return x
                return self.pread(v.a[0], p)
            return mk("fld", v, variant, idx)
        if k == "i":
            i = p[1]
            if v.op == "agg" and i.op == "int" and 0 <= i.a[0] < len(v.a[2]):
                return v.a[2][i.a[0]]
            if v.op == "app" and v.a[0] == "repeat":
                return v.a[1][0]
            if v.op == "app" and v.a[0] == "sub":
                return self.pread(v.a[1][0], ("i", add(v.a[1][1], i)))
            if v.op == "upd":
                q = v.a[1]
                if q == p:
                    return v.a[2]
                if q[0] == "i" and q[1].op == "int" and i.op == "int":
                    return self.pread(v.a[0], p)
            return mk("app", "elem", (v, i))
        if k == "sub":
            return self.seqsub(v, p[1], p[2])
        if k == "view":
            if v.op == "app" and v.a[0] == "of_view" and v.a[1][0].a[0] == p[1]:
                return v.a[1][1]
            return mk("app", "view", (mk("str", p[1]), v))
        if k == "cast":
            if v.op == "app" and v.a[0] == "reinterp" and v.a[1][0].a[0] == p[2]:
                return v.a[1][1]
            return mk("app", "reinterp", (mk("ty", p[1]), v, mk("ty", p[2]) if p[2] else UNIT))
        return mk("app", "proj_" + str(k), (v,))

    def seqsub(self, v, s, e):
        n = self.length(v)
        if s.op == "int" and s.a[0] == 0 and (e is n):
            return v
        if v.op == "app" and v.a[0] == "sub":
            return self.seqsub(v.a[1][0], add(v.a[1][1], s), add(v.a[1][1], e))
        if v.op == "agg" and s.op == "int" and e.op == "int":
            return agg("array", 0, v.a[2][s.a[0]:e.a[0]])
        return mk("app", "sub", (v, s, e))

    def length(self, v):
        """Length of a sequence value."""
        o = v.op
        if o == "agg":
            if v.a[0] == "array":
                return num(len(v.a[2]))
        if o == "str":
            return num(len(v.a[0].encode("utf8", "replace")))
        if o == "bytes":
            return num(len(v.a[0]))
        if o == "upd":
            return self.length(v.a[0])
        if o == "app":
            n, a = v.a
            if n == "new":
                return num(0)
            if n in ("add", "add_front") and a[0].a[0] in ("Vec", "VecDeque", "LinkedList", "BinaryHeap"):
                return add(self.length(a[1]), num(1))
            if n == "sub":
                return sub(a[2], a[1])
            if n == "resize":
                return a[1]
            if n == "truncate":
                return tmin(a[1], self.length(a[0]))
            if n == "repeat":
                return a[1]
            if n == "rawimg":
                return a[2]
            if n == "view" and a[0].a[0] == "bytes":
                return mk("app", "len", (a[1],))
            if n == "view" and a[0].a[0] == "bytes_nul":
                return add(mk("app", "len", (a[1],)), num(1))
            if n == "iter":
                return self.length(a[0])
        return mk("app", "len", (v,))

    def write(self, st, root, proj, val):
        st.mem[root] = self.pwrite(self.rootval(st, root), proj, val)

    def pwrite(self, v, proj, val):
        if not proj:
            return val
        p = proj[0]
        inner = self.pwrite(self.pread(v, p), proj[1:], val) if len(proj) > 1 else val
        if p[0] == "f":
            if v.op == "agg" and (p[2] is None or v.a[1] == p[2] or v.a[1] is None) and p[1] < len(v.a[2]):
                fs = list(v.a[2])
                fs[p[1]] = inner
                return mk("agg", v.a[0], v.a[1], tuple(fs))
            if v.op == "with":
                ps = [(q, x) for q, x in v.a[1] if not (q[0] == "f" and q[1] == p[1])]
                ps.append((p, inner))
                base = v.a[0]
            else:
                ps, base = [(p, inner)], v
            # an override equal to what the base has is no override
            ps = [(q, x) for q, x in ps if base in (UNINIT, MOVED) or self.pread(base, q) is not x]
            if not ps:
                return base
            return mk("with", base, tuple(sorted(ps, key=lambda z: (z[0][1], z[0][2] if z[0][2] is not None else -1))))
        if p[0] == "i":
            if v.op == "agg" and p[1].op == "int" and p[1].a[0] < len(v.a[2]):
                fs = list(v.a[2])
                fs[p[1].a[0]] = inner
                return mk("agg", v.a[0], v.a[1], tuple(fs))
            return mk("upd", v, p, inner)
        if p[0] == "view":
            return mk("app", "of_view", (mk("str", p[1]), inner))
        if p[0] == "cast":
            if p[2] and p[1][0] == "ptr" and p[2][0] in ("ptr", "ref") and p[2][2][0] in ("param", "dyn"):
                # a thin pointer stored over a pointer that may be fat keeps the rest of it
                return mk("app", "setthin", (mk("ty", p[2]), v, inner))
            return mk("app", "reinterp", (mk("ty", p[2]) if p[2] else UNIT, inner, mk("ty", p[1]))) if p[2] else \
                mk("app", "overlay", (mk("ty", p[1]), v, inner))
        if p[0] == "sub" and p[1] is num(0) and p[2] is self.length(v):
            return inner
        return mk("upd", v, p, inner)

    def target(self, v):
        """The place a pointer value points to."""
        if v.op == "ref":
            return v.a[0], v.a[1]
        if v.op == "pcast":
            r, p = self.target(v.a[2])
            return r, p + (("cast", v.a[1], v.a[0]),)
        if v.op == "agg" and len(v.a[2]) >= 1 and v.a[0] != "tuple" and isinstance(v.a[0], tuple) and v.a[0][0] == "adt" \
                and v.a[0][1].split("::")[-1] in ("Pin", "NonNull", "Unique", "Box", "ManuallyDrop"):
            return self.target(v.a[2][0])
        return ("obj", v), ()

    def place(self, st, ctx, pl):
        root, proj, variant = ("L", ctx.id, pl[0]), (), None
        for e in pl[1]:
            k = e[0]
            if k == "*":
                v = self.read(st, root, proj)
                root, proj = self.target(v)
                variant = None
            elif k == "v":
                variant = e[1]
            elif k == "f":
                proj = proj + (("f", e[1], variant),)
                variant = None
            elif k == "i":
                idx = self.read(st, ("L", ctx.id, e[1]), ())
                proj = self.addidx(proj, idx)
            elif k == "ci":
                if e[2]:
                    v = self.read(st, root, proj)
                    idx = sub(self.length(v), num(e[1]))
                else:
                    idx = num(e[1])
                proj = self.addidx(proj, idx)
            elif k == "ss":
                v = self.read(st, root, proj)
                end = sub(self.length(v), num(e[2])) if e[3] else num(e[2])
                proj = self.addsub(proj, num(e[1]), end)
        return root, proj

    @staticmethod
    def addidx(proj, i):
        if proj and proj[-1][0] == "sub":
            return proj[:-1] + (("i", add(proj[-1][1], i)),)
        return proj + (("i", i),)

    @staticmethod
    def addsub(proj, s, e):
        if proj and proj[-1][0] == "sub":
            b = proj[-1][1]
            return proj[:-1] + (("sub", add(b, s), add(b, e)),)
        return proj + (("sub", s, e),)

    def place_ty(self, ctx, pl):
        t = self.ty(ctx, ctx.body.locals[pl[0]])
        for e in pl[1]:
            if e[0] == "*":
                if t[0] in ("ref", "ptr"):
                    t = t[2]
                elif t[0] == "adt" and t[2]:
                    t = t[2][0]
            elif e[0] == "f":
                t = self.ty(ctx, e[2])
            elif e[0] in ("i", "ci"):
                t = t[1] if t[0] in ("array", "slice") else t
        return t

    # ------------------------------------------------------------------ operands and rvalues
    def operand(self, st, ctx, o):
        if o[0] == "c":
            r, p = self.place(st, ctx, o[1])
            return self.read(st, r, p)
        if o[0] == "m":
            r, p = self.place(st, ctx, o[1])
            v = self.read(st, r, p)
            t = self.place_ty(ctx, o[1])
            if not self.is_copy(t):
                self.write(st, r, p, MOVED)
            return v
        return self.const(st, ctx, o)

    def is_copy(self, t):
        k = t[0]
        if k in ("int", "bool", "char", "float", "ptr", "fndef", "fnptr", "never"):
            return True
        if k == "ref":
            return not t[1]
        if k == "tuple":
            return all(self.is_copy(x) for x in t[1])
        if k == "array":
            return self.is_copy(t[1])
        return False

    def const(self, st, ctx, o):
        t, c = o[1], o[2]
        if "generic" in c and "def" in c:
            return self.assoc_const(ctx, c, self.ty(ctx, t))
        if "kparam" in c:
            kp = c["kparam"]
            idx = kp[2] if isinstance(kp, (list, tuple)) and len(kp) > 2 else None
            v = ctx.env.get(idx)
            if v is not None and v[0] == "kint":
                return num(int(v[1]))
            return mk("sym", "const", str(v[1] if v else kp[1] if isinstance(kp, (list, tuple)) and len(kp) > 1 else kp))
        tt = self.ty(ctx, t)
        if "int" in c:
            return num(int(c["int"]))
        if "slice" in c:
            b = bytes(c["slice"].get("bytes") or ())
            if tt[0] == "ref" and tt[2][0] == "str":
                return mk("app", "addr_of", (mk("str", b.decode("utf8", "replace")),))
            return mk("app", "addr_of", (mk("bytes", b),))
        if "static" in c:
            return mk("ref", ("static", c["static"]), ())
        if "fnptr" in c:
            return mk("fn", c["fnptr"], tuple(subst(a, ctx.env) for a in c.get("args", ())))
        if tt[0] == "fndef":
            return mk("fn", tt[1], tt[2])
        if "zst" in c:
            return self.zst(tt)
        if "ptr" in c or "ind" in c or "bytes" in c:
            x = c.get("ptr", c.get("ind", c.get("bytes")))
            return self.const_alloc(tt, c, x)
        return mk("sym", "const", str(c.get("def", "")), tystr(tt))

    def const_alloc(self, tt, c, x):
        b = None
        if isinstance(x, dict):
            b = x.get("bytes")
            if b is not None and tt[0] == "ref" and not x.get("relocs"):
                bb = bytes(b) if isinstance(b, list) else b
                return mk("app", "addr_of", (mk("bytes", bb),))
        d = c.get("def")
        return mk("sym", "const", str(d or str(x)[:200]), tystr(tt))

    def zst(self, tt):
        if tt[0] == "tuple":
            return agg("tuple", 0, tuple(self.zst(x) for x in tt[1]))
        if tt[0] == "adt":
            a = self.db.adt(tt[1])
            if a and a["kind"] == "struct":
                env = self.adt_env(a, tt[2])
                fs = tuple(self.zst(self.norm(subst(f[1], env))) for f in a["variants"][0]["fields"])
                return agg(("adt", tt[1]), 0, fs)
            if a and a["kind"] == "enum":
                return agg(("adt", tt[1]), 0, ())
        if tt[0] in ("closure", "coroutine"):
            return agg((tt[0], tt[1], tt[2]), 0, ())
        if tt[0] == "fndef":
            return mk("fn", tt[1], tt[2])
        return mk("sym", "zst", tystr(tt))

    def adt_env(self, a, args):
        return {g[1]: x for g, x in zip(a.get("generics", ()), args)}

    def assoc_const(self, ctx, c, t):
        args = tuple(self.norm(subst(a, ctx.env)) for a in c["args"])
        d = self.db.defs.get(c["def"]) or {}
        key, env = c["def"], None
        if d.get("container") == "trait":
            im = self.find_impl(d["parent"], args)
            if im:
                for name, k, kind, ty in im[0]["items"]:
                    if name == d["name"]:
                        key = k
                        env = im[1]
        v = self.const_body(key, env if env is not None else env_of(self.db, key, args))
        if v is not None:
            return v
        return mk("app", "const:" + self.db.short(c["def"]), tuple(mk("ty", a) for a in args))

    def const_body(self, key, env):
        b = self.db.bodies.get(key)
        if b is None:
            return None
        try:
            ip = Interp(self.db, Opts(max_nodes=300, drive=False))
            g = ip.run(key, env=env)
        except Undecided:
            return None
        vals = {e.res for n in g.nodes for e in n.events if e.kind == "ret"}
        vals |= {e.res for n in g.nodes for x in n.succs for e in x.events if e.kind == "ret"}
        if len(vals) == 1:
            return vals.pop()
        return None

    def rvalue(self, st, ctx, r, bb):
        k = r[0]
        if k == "use":
            return self.operand(st, ctx, r[1])
        if k in ("ref", "addr"):
            root, proj = self.place(st, ctx, r[2])
            if r[1] == "shr" and not r[2][1] and r[2][0] not in ctx.body.names_by_local:
                v = st.mem.get(root)
                if v is not None and is_const(v):
                    return mk("app", "addr_of", (v,))    # rvalue static promotion
            return self.mkref(root, proj)
        if k == "bin":
            a = self.operand(st, ctx, r[2])
            b = self.operand(st, ctx, r[3])
            op = r[1]
            if op in ("AddWithOverflow", "SubWithOverflow", "MulWithOverflow"):
                return tup(binop(op, a, b), FALSE)
            if op == "Offset":
                return mk("app", "ptradd", (a, b))
            if op in ("Eq", "Ne") and (a.op == "discr" or b.op == "discr"):
                return mk("bin", op, a, b)
            if op in ("Lt", "Le", "Gt", "Ge"):
                t = self.oper_ty(ctx, r[2])
                return compare(op, a, b, signed=t[0] == "int" and str(t[1]).startswith("i"))
            return binop(op, a, b)
        if k == "un":
            a = self.operand(st, ctx, r[2])
            if r[1] == "Not":
                if self.oper_ty(ctx, r[2])[0] == "bool":
                    return neg(a)
                return mk("un", "BitNot", a)
            if r[1] == "PtrMetadata":
                root, proj = self.target(a)
                return self.ref_len(st, a)
            return mk("un", r[1], a)
        if k == "discr":
            root, proj = self.place(st, ctx, r[1])
            v = self.read(st, root, proj)
            t = self.place_ty(ctx, r[1])
            return self.discr(v, t)
        if k == "agg":
            ops = tuple(self.operand(st, ctx, o) for o in r[2])
            kk = r[1]
            if kk[0] == "tuple":
                return agg("tuple", 0, ops)
            if kk[0] == "array":
                return agg("array", 0, ops)
            if kk[0] == "adt":
                t = self.ty(ctx, kk[1])
                return agg(("adt", t[1]), kk[2] if len(kk) > 2 else 0, ops)
            if kk[0] in ("closure", "coroutine"):
                t = subst(kk[1], ctx.env)
                return agg((kk[0], t[1], t[2]), 0, ops)
            return agg(kk[0], 0, ops)
        if k == "cast":
            return self.cast(st, ctx, r)
        if k == "repeat":
            v = self.operand(st, ctx, r[1])
            n = r[2]
            if n[0] == "kparam":
                n = ctx.env.get(n[2], n)
            nn = num(int(n[1])) if n[0] == "kint" else mk("sym", "const", str(n[1]))
            if nn.op == "int" and nn.a[0] <= 8:
                return agg("array", 0, (v,) * nn.a[0])
            return mk("app", "repeat", (v, nn))
        if k == "len":
            root, proj = self.place(st, ctx, r[1])
            return self.length(self.read(st, root, proj))
        return mk("app", "rvalue_" + k, (mk("sym", "at", ctx.id, bb),))

    def ref_len(self, st, a):
        if a.op == "app" and a.a[0] == "rawimg":
            return a.a[1][2]
        root, proj = self.target(a)
        if proj and proj[-1][0] == "sub":
            return sub(proj[-1][2], proj[-1][1])
        return self.length(self.read(st, root, proj))

    def mkref(self, root, proj):
        if root[0] == "obj" and not proj:
            return root[1]
        if root[0] == "obj" and root[1].op == "app" and root[1].a[0] == "rawimg" and len(proj) == 1 and proj[0][0] == "sub":
            return mk("app", "rawsub", (root[1], proj[0][1], proj[0][2]))
        return mk("ref", root, proj)

    def oper_ty(self, ctx, o):
        if o[0] in ("c", "m"):
            return self.place_ty(ctx, o[1])
        return self.ty(ctx, o[1])

    def discr(self, v, t):
        if v.op == "agg" and v.a[1] is not None:
            a = self.db.adt(t[1]) if t[0] == "adt" else None
            if a and v.a[1] < len(a["variants"]):
                return num(int(a["variants"][v.a[1]]["discr"] if a["variants"][v.a[1]]["discr"] is not None else v.a[1]))
            return num(v.a[1])
        return mk("discr", self.strip_with(v), t)

    @staticmethod
    def strip_with(v):
        while v.op == "with":
            v = v.a[0]
        return v

    def variant(self, v):
        if v.op == "agg":
            return num(v.a[1] or 0)
        return mk("app", "variant", (self.strip_with(v),))

    def cast(self, st, ctx, r):
        k, t = r[1], self.ty(ctx, r[3])
        ft = self.oper_ty(ctx, r[2])
        v = self.operand(st, ctx, r[2])
        if k in ("CoerceUnsize", "CoerceMutToConstPointer", "CoerceArrayToPointer", "Subtype"):
            return v
        if k == "PtrToPtr":
            a, b = ft[2] if len(ft) > 2 else ft, t[2] if len(t) > 2 else t
            return self.pcast(v, a, b)
        if k.startswith("CoerceReifyFnPointer") or k.startswith("CoerceUnsafeFnPointer"):
            return v
        if k.startswith("CoerceClosureFnPointer"):
            return v
        if k == "FnPtrToPtr":
            return mk("app", "fnaddr", (v,))
        if k == "IntToInt":
            if v.op == "int":
                return v
            return self.intcast(v, ft, t)
        if k in ("PointerExposeProvenance",):
            w = v.a[2] if v.op == "pcast" else v
            if w.op == "app" and w.a[0] == "fnaddr":
                v = w.a[1][0]      # the address of a function is the same however it is written
            return mk("app", "addr", (v,))
        if k in ("PointerWithExposedProvenance",):
            if v.op == "app" and v.a[0] == "addr":
                return v.a[1][0]
            return mk("app", "ptr_at", (v,))
        if k == "Transmute":
            return mk("app", "transmute", (mk("ty", ft), mk("ty", t), v))
        return mk("app", "cast_" + k, (v, mk("ty", t)))

    def intcast(self, v, ft, t):
        order = {"bool": 1, "u8": 8, "i8": 8, "u16": 16, "i16": 16, "u32": 32, "i32": 32, "u64": 64, "i64": 64,
                 "usize": 64, "isize": 64, "u128": 128, "i128": 128}
        fn = ft[1] if ft[0] == "int" else ft[0]
        tn = t[1] if t[0] == "int" else t[0]
        fu = fn[0] == "u" or fn in ("bool", "char")
        fw, tw = order.get(fn, 32), order.get(tn, 32)
        if fw <= tw and (fu or tn[0] == "i"):
            return v      # value preserving
        if fw == tw:
            if v.op == "app" and v.a[0] == "wrapcast" and v.a[1][2].a[0] == tn:
                return v.a[1][1]
            return mk("app", "wrapcast", (mk("str", tn), v, mk("str", fn)))
        return mk("app", "trunc", (mk("str", tn), v))

    def pcast(self, v, a, b):
        if a == b:
            return v
        if v.op == "pcast":
            if v.a[0] == b:
                return v.a[2]
            return mk("pcast", v.a[0], b, v.a[2])
        return mk("pcast", a, b, v)

    # ------------------------------------------------------------------ deep values (snapshots)
    def deep(self, st, v, d=None, seen=()):
        d = self.opts.deep if d is None else d
        if d <= 0:
            return v
        if v.op == "ref":
            if (v.a[0], v.a[1]) in seen:
                return v
            x = self.read(st, v.a[0], v.a[1])
            return mk("&", self.deep(st, x, d - 1, seen + ((v.a[0], v.a[1]),)), v)
        if v.op == "agg":
            return mk("agg", v.a[0], v.a[1], tuple(self.deep(st, x, d - 1, seen) for x in v.a[2]))
        if v.op == "app" and v.a[0] not in ("elem", "view", "len"):
            return mk("app", v.a[0], tuple(self.deep(st, x, d - 1, seen) if isinstance(x, Term) else x for x in v.a[1]))
        if v.op == "pcast":
            return mk("pcast", v.a[0], v.a[1], self.deep(st, v.a[2], d - 1, seen))
        return v

    # ------------------------------------------------------------------ driver
    def run(self, key, env=None, args=None, init=None, selfargs=None):
        body = self.db.bodies.get(key)
        if body is None:
            raise Undecided("no body for " + key)
        self.nodes = []
        self.tab = {}
        self.insts = {}
        self.point_count = {}
        self.work = []
        env = dict(env or {})
        c = self.ctx(None, 0, key, body, env)
        st = State()
        for i in range(1, body.argc + 1):
            t = self.ty(c, body.locals[i])
            if args is not None and i - 1 < len(args) and args[i - 1] is not None:
                v = args[i - 1]
            else:
                v = mk("sym", "arg", i, body.names_by_local.get(i, str(i)))
            st.mem[("L", c.id, i)] = v
        if init:
            init(self, st)
        g = Graph()
        g.entry_edge = self.enter(None, st, c, 0, [], {})
        while self.work:
            n = self.work.pop()
            if n.dead:
                continue
            self.exec(n)
            if len(self.nodes) > self.opts.max_nodes:
                raise Undecided(f"more than {self.opts.max_nodes} states in {key}")
        return self.finish(g, c)

    def finish(self, g, c):
        # redirect edges to superseded loop-head instances and prune
        def final(n):
            while n.dead:
                n = n.dead
            return n
        root = final(g.entry_edge.target)
        seen, order, st = {root.id}, [], [root]
        while st:
            n = st.pop()
            order.append(n)
            for e in n.succs:
                e.dst = final(e.target) if e.target is not None else None
                if e.dst is not None and e.dst.id not in seen:
                    seen.add(e.dst.id)
                    st.append(e.dst)
        g.entry = root
        g.entry_edge.dst = root
        g.nodes = sorted(order, key=lambda n: n.id)
        for n in g.nodes:
            n.preds = []
        for n in g.nodes:
            for e in n.succs:
                if e.dst is not None:
                    e.dst.preds.append(e)
        for e in [g.entry_edge] + [e for n in g.nodes for e in n.succs]:
            e.assign = {}
            if e.dst is not None and e.dst.phis:
                for ph, (root_, path) in e.dst.phis.items():
                    v = self.rootval(e.arrive, root_)
                    for p in path:
                        v = self.apath(v, p)
                    e.assign[ph] = v
        g.ip = self
        g.ctx = c
        return g

    @staticmethod
    def apath(v, p):
        if v.op == "agg" and isinstance(p, int):
            return v.a[2][p] if p < len(v.a[2]) else UNINIT
        if v.op == "with" and isinstance(p, tuple):
            for q, x in v.a[1]:
                if q == p:
                    return x
        return mk("fld", v, None, p if isinstance(p, int) else 0)

    def enter(self, src, st, ctx, bb, events, facts):
        """Create/find the node for a state arriving at (ctx, bb)."""
        e = Edge()
        e.src, e.events, e.facts = src, events, facts
        e.dst = None
        # leave loops of this ctx that do not contain bb
        for (cid, h) in list(st.loops):
            if cid == ctx.id and bb not in ctx.loops.get(h, ()):
                del st.loops[(cid, h)]
        if bb in ctx.loops:
            back = src is not None and (ctx.id, bb) in st.loops
            if back:
                inst = self.insts[st.loops[(ctx.id, bb)]]
                e.arrive = st
                e.target = self.loop_arrive(inst, st, ctx, bb)
                return e
            base = State(st.mem, st.facts, st.loops)
            k = ("head", ctx.id, bb, base.key())
            iid = self.tab.get(k)
            if iid is None:
                iid = len(self.insts)
                self.tab[k] = iid
                s2 = st.copy()
                s2.loops[(ctx.id, bb)] = iid
                n = self.newnode(ctx, bb, s2)
                n.phis = {}
                self.insts[iid] = dict(id=iid, node=n, phis={})
            e.arrive = st
            e.target = self.insts[iid]["node"]
            return e
        k = (ctx.id, bb, st.key())
        n = self.tab.get(k)
        if n is None:
            n = self.newnode(ctx, bb, st)
            self.tab[k] = n
        e.target = n
        e.arrive = st
        return e

    def newnode(self, ctx, bb, st):
        n = Node()
        n.id = len(self.nodes)
        n.ctx, n.bb, n.state = ctx, bb, st
        n.events, n.succs, n.phis, n.dead = [], [], None, None
        n.head = bb in ctx.loops
        self.nodes.append(n)
        self.work.append(n)
        pc = self.point_count.get((ctx.id, bb), 0) + 1
        self.point_count[(ctx.id, bb)] = pc
        if pc > self.opts.max_point:
            raise Undecided(f"too many states at {ctx.key} bb{bb}")
        return n

    def loop_arrive(self, inst, st, ctx, bb):
        n = inst["node"]
        old = n.state
        phis = dict(n.phis)
        mem = {}
        pid = (ctx.id, bb, inst["id"])

        def join(a, b, root, path):
            if a is b:
                return a
            if a.op == "phi" and a.a[0] == pid and a in phis:
                return a
            if a.op == "agg" and b.op == "agg" and a.a[0] == b.a[0] and a.a[1] == b.a[1] and len(a.a[2]) == len(b.a[2]):
                return mk("agg", a.a[0], a.a[1], tuple(join(x, y, root, path + (i,)) for i, (x, y) in enumerate(zip(a.a[2], b.a[2]))))
            if a.op == "with" and b.op == "with" and a.a[0] is b.a[0] and [q for q, _ in a.a[1]] == [q for q, _ in b.a[1]]:
                return mk("with", a.a[0], tuple((q, join(x, y, root, path + (q,))) for (q, x), (_, y) in zip(a.a[1], b.a[1])))
            ph = mk("phi", pid, root, path)
            phis[ph] = (root, path)
            return ph
        for root in set(old.mem) | set(st.mem):
            a, b = old.mem.get(root), st.mem.get(root)
            if root[0] not in ("obj", "static"):
                if a is None or b is None:
                    continue
            else:
                a = self.default(root) if a is None else a
                b = self.default(root) if b is None else b
            mem[root] = join(a, b, root, ())
        live = set()
        for v in mem.values():
            live |= {x for x in subterms(v) if x.op == "phi" and x.a[0] == pid}
        phis = {p: x for p, x in phis.items() if p in live}
        newph = set(phis) - set(n.phis)
        facts = {}
        for t, v in old.facts.items():
            w = st.facts.get(t)
            if w is None:
                continue
            if w != v:
                if isinstance(w, frozenset) and isinstance(v, frozenset) and (w & v):
                    v = w & v
                else:
                    continue
            if newph and any(x in newph for x in subterms(t)):
                continue
            facts[t] = v
        if mem == old.mem and facts == old.facts and not newph:
            return n
        s2 = State(mem, facts, dict(old.loops))
        m = self.newnode(ctx, bb, s2)
        m.phis = phis
        n.dead = m
        inst["node"] = m
        inst["count"] = inst.get("count", 0) + 1
        if inst["count"] > 25:
            raise Undecided("loop does not stabilise in " + ctx.key)
        return m

    # ------------------------------------------------------------------ block execution
    def exec(self, n):
        st = n.state.copy()
        ctx, bb = n.ctx, n.bb
        blk = ctx.body.blocks[bb]
        evs = n.events
        for s in blk["s"]:
            k = s[0]
            if k == "=":
                v = self.rvalue(st, ctx, s[2], bb)
                root, proj = self.place(st, ctx, s[1])
                if root[0] in ("obj", "static"):
                    evs.append(Ev("write", "write", args=(mk("ref", root, proj) if proj or root[0] != "obj" else root[1], v), line=s[3], file=ctx.body.file, ctx=ctx, bb=bb,
                                  res=v, where=ctx.key))
                self.write(st, root, proj, v)
            elif k == "dead":
                st.mem.pop(("L", ctx.id, s[1]), None)
            elif k == "sdisc":
                root, proj = self.place(st, ctx, s[1])
                v = self.read(st, root, proj)
                t = self.place_ty(ctx, s[1])
                if v.op == "agg":
                    self.write(st, root, proj, mk("agg", v.a[0], s[2], v.a[2]))
                else:
                    self.write(st, root, proj, agg(("adt", t[1]) if t[0] == "adt" else t[0], s[2], ()))
        t = blk["t"]
        k = t[0]
        if k == "goto":
            self.flow(n, st, ctx, t[1])
        elif k == "switch":
            self.do_switch(n, st, ctx, t)
        elif k == "assert":
            c = self.operand(st, ctx, t[1])
            self.fork_assert(n, st, ctx, c, t)
        elif k == "drop":
            self.do_drop(n, st, ctx, bb, t)
        elif k == "call":
            self.do_call(n, st, ctx, bb, t)
        elif k == "return":
            self.do_return(n, st, ctx, t)
        elif k == "yield":
            v = self.operand(st, ctx, t[1])
            evs.append(Ev("suspend", "suspend", args=(), line=t[4] if isinstance(t[4], int) else None, file=ctx.body.file, ctx=ctx, bb=bb, where=ctx.key))
            root, proj = self.place(st, ctx, t[3])
            self.write(st, root, proj, mk("sym", "resume"))
            self.flow(n, st, ctx, t[2])
        elif k == "unreachable":
            pass
        elif k == "resume":
            pass

    def flow(self, n, st, ctx, bb, events=(), facts=None):
        e = self.enter(n, st, ctx, bb, list(events), facts or {})
        n.succs.append(e)
        return e

    def stop(self, n, st, events):
        e = Edge()
        e.src, e.dst, e.target, e.events, e.facts, e.arrive, e.assign = n, None, None, list(events), {}, st, {}
        n.succs.append(e)

    def diff(self, a, b):
        return {t: v for t, v in b.facts.items() if a.facts.get(t) != v}

    def fork_assert(self, n, st, ctx, c, t):
        # overflow and bounds checks: only the passing continuation (panics of that kind are reported
        # as such by nobody: they are not part of any property decided here), division likewise
        exp = t[2]
        st2 = st.copy()
        if not st2.assume(c, 1 if exp else 0):
            self.stop(n, st, [Ev("panic", "assert", line=t[5] if isinstance(t[5], int) else None, file=ctx.body.file, ctx=ctx, bb=n.bb, args=(), where=ctx.key)])
            return
        # keep the state free of bounds facts
        self.flow(n, st, ctx, t[3])

    def do_switch(self, n, st, ctx, t):
        v = self.operand(st, ctx, t[1])
        targets, other, line, ty = t[2], t[3], t[4], t[5]
        if v.op == "discr":
            base, at = v.a
            vt = mk("app", "variant", (base,))
            a = self.db.adt(at[1]) if at[0] == "adt" else None
            nv = len(a["variants"]) if a else None
            m = {}
            if a:
                for i, x in enumerate(a["variants"]):
                    dv = int(x["discr"]) if x["discr"] is not None else i
                    m[dv] = i
                    if dv < 0:
                        for w in (8, 16, 32, 64, 128):
                            m.setdefault(dv & ((1 << w) - 1), i)
            taken = []
            for val, b in targets:
                idx = m.get(val, val)
                taken.append(idx)
                self.branch(n, st, ctx, b, [(vt, idx, False)])
            if nv is not None:
                rest = [i for i in range(nv) if i not in taken]
                if not rest:
                    return
                if len(rest) == 1:
                    self.branch(n, st, ctx, other, [(vt, rest[0], False)])
                    return
            self.branch(n, st, ctx, other, [(vt, i, True) for i in taken])
            return
        if ty[0] == "int" and ty[1][:1] == "i":
            w = {"i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64, "i128": 128}.get(ty[1], 64)
            targets = [(val - (1 << w) if val >> (w - 1) else val, b) for val, b in targets]
        if v.op == "int":
            for val, b in targets:
                if val == v.a[0]:
                    self.flow(n, st, ctx, b)
                    return
            self.flow(n, st, ctx, other)
            return
        if ty[0] == "bool":
            for val, b in targets:
                self.branch(n, st, ctx, b, [(v, val, False)])
            vals = [x for x, _ in targets]
            if len(vals) == 1:
                self.branch(n, st, ctx, other, [(v, 1 - vals[0], False)])
            return
        for val, b in targets:
            self.branch(n, st, ctx, b, [(v, val, False)])
        self.branch(n, st, ctx, other, [(v, x, True) for x, _ in targets])

    def branch(self, n, st, ctx, bb, conds):
        s2 = st.copy()
        for t, v, ne in conds:
            if not s2.assume(t, v, ne):
                return
        self.flow(n, s2, ctx, bb, facts=self.diff(st, s2))

    # ------------------------------------------------------------------ drops
    def drop_parts(self, st, root, proj, t, depth=0):
        """(value, type, root, proj) leaves that a drop of this place releases."""
        v = self.read(st, root, proj)
        return self.drop_value(st, v, t, root, proj, depth)

    def drop_value(self, st, v, t, root, proj, depth=0):
        if v is MOVED or v is UNINIT or v.op in ("done", "moved", "uninit"):
            return []
        k = t[0]
        if k in ("int", "bool", "char", "float", "ptr", "ref", "fndef", "fnptr", "never", "str"):
            return []
        if depth > 8:
            return [(v, t, root, proj)]
        if k == "tuple":
            return [x for i, tt in enumerate(t[1]) for x in self.drop_value(st, self.pread(v, ("f", i, None)), self.norm(tt), root, proj + (("f", i, None),), depth + 1)]
        if k in ("closure", "coroutine") or (v.op == "agg" and isinstance(v.a[0], tuple) and v.a[0][0] in ("closure", "coroutine")):
            ups = t[3] if k in ("closure", "coroutine") else ()
            out = []
            if v.op == "agg":
                for i, x in enumerate(v.a[2]):
                    tt = self.norm(subst(ups[i], self.closure_env(v.a[0][1], v.a[0][2]))) if False and i < len(ups) else (self.norm(ups[i]) if i < len(ups) else ("other", "?"))
                    out += self.drop_value(st, x, tt, root, proj + (("f", i, None),), depth + 1)
            return out
        if k == "array":
            if v.op == "agg":
                return [x for i, y in enumerate(v.a[2]) for x in self.drop_value(st, y, t[1], root, proj + (("i", num(i)),), depth + 1)]
            return [] if not self.needs_drop(t) else [(v, t, root, proj)]
        if k == "adt":
            name = adtname(t)
            a = self.db.adt(t[1])
            if v.op == "agg" and isinstance(v.a[0], tuple) and v.a[0][0] == "adt" and v.a[0][1].startswith("models::"):
                return [x for i, y in enumerate(v.a[2]) for x in self.drop_value(st, y, self.guess_ty(y), root, proj + (("f", i, None),), depth + 1)]
            if name in ("ManuallyDrop", "MaybeUninit", "PhantomData"):
                return []
            if name == "Box" and v.op == "ref" and v.a[0][0] == "H":
                inner = self.drop_parts(st, v.a[0], v.a[1], self.norm(t[2][0]), depth + 1)
                return inner + [(v, t, root, proj)]
            if a is None:
                return [(v, t, root, proj)]
            if not self.needs_drop(t):
                return []
            if a.get("has_dtor") and not (a.get("local") or name in ("Vec",)):
                return [(v, t, root, proj)]
            if a.get("has_dtor"):
                return [(v, t, root, proj)]
            if not a.get("local") and name not in ("Option", "Result", "Poll", "ControlFlow", "Pin") and v.op not in ("agg", "with"):
                return [(v, t, root, proj)]
            env = self.adt_env(a, t[2])
            if a["kind"] == "enum":
                vi = v.a[1] if v.op == "agg" else st.val(self.variant(v))
                if vi is None:
                    vs = [i for i, x in enumerate(a["variants"]) if any(self.needs_drop(self.norm(subst(f[1], env))) for f in x["fields"])]
                    ex = st.facts.get(self.variant(v))
                    if isinstance(ex, frozenset):
                        vs = [i for i in vs if i not in ex]
                    if not vs:
                        return []
                    if v.op == "with":
                        out = []
                        for i in vs:
                            for j, f in enumerate(a["variants"][i]["fields"]):
                                out += self.drop_value(st, self.pread(v, ("f", j, i)), self.norm(subst(f[1], env)), root, proj + (("f", j, i),), depth + 1)
                        return out
                    return [(v, t, root, proj)]
            else:
                vi = 0
            out = []
            if vi >= len(a["variants"]):
                return [(v, t, root, proj)]
            for j, f in enumerate(a["variants"][vi]["fields"]):
                q = ("f", j, vi if a["kind"] == "enum" else None)
                out += self.drop_value(st, self.pread(v, q), self.norm(subst(f[1], env)), root, proj + (q,), depth + 1)
            return out
        return [(v, t, root, proj)] if self.needs_drop(t) else []

    def guess_ty(self, v):
        if v.op == "ref":
            return ("ref", True, ("other", "?"))
        if v.op == "agg" and isinstance(v.a[0], tuple) and v.a[0][0] == "closure":
            return ("closure", v.a[0][1], v.a[0][2], ())
        if v.op == "agg" and isinstance(v.a[0], tuple) and v.a[0][0] == "adt":
            return ("adt", v.a[0][1], ())
        if v.op == "int":
            return ("int", "usize")
        return ("other", "?")

    def needs_drop(self, t, depth=0):
        k = t[0]
        if k in ("int", "bool", "char", "float", "ptr", "ref", "fndef", "fnptr", "never", "str", "other"):
            return False
        if k == "tuple":
            return any(self.needs_drop(x, depth + 1) for x in t[1])
        if k in ("array", "slice"):
            return self.needs_drop(t[1], depth + 1)
        if k in ("closure", "coroutine"):
            return k == "coroutine" or any(self.needs_drop(x, depth + 1) for x in t[3])
        if k == "adt":
            n = adtname(t)
            if n in ("PhantomData", "ManuallyDrop", "MaybeUninit"):
                return False
            a = self.db.adt(t[1])
            if a is not None and a.get("needs_drop") is False:
                return False
            if a is None or a.get("has_dtor") or n == "Box":
                return True
            if depth > 8:
                return True
            env = self.adt_env(a, t[2])
            return any(self.needs_drop(self.norm(subst(f[1], env)), depth + 1) for v in a["variants"] for f in v["fields"])
        return True

    def do_drop(self, n, st, ctx, bb, t):
        root, proj = self.place(st, ctx, t[1])
        ty = self.norm(subst(t[4], ctx.env))
        parts = self.drop_parts(st, root, proj, ty)
        line = t[5] if isinstance(t[5], int) else None
        local = []
        evs = []
        for v, tt, r, p in parts:
            d = self.local_drop(tt)
            if d:
                local.append((v, tt, r, p, d))
            else:
                evs.append(Ev("drop", tyname(tt), args=(v,), deep=(self.deep(st, v, 3),), ty=tt, line=line, file=ctx.body.file, ctx=ctx, bb=bb, where=ctx.key,
                              facts=None))
        if local and ctx.depth < self.opts.max_depth:
            v, tt, r, p, (key, env) = local[0]
            body = self.db.bodies[key]
            c = self.ctx(ctx, bb, key, body, env, "drop")
            st.mem[("L", c.id, 1)] = self.mkref(r, p)
            self.flow(n, st, c, 0, events=evs)
            return
        self.write(st, root, proj, MOVED)
        self.flow(n, st, ctx, t[2], events=evs)

    def local_drop(self, t):
        if t[0] != "adt":
            return None
        a = self.db.adt(t[1])
        if not a or not a.get("local") or not a.get("has_dtor"):
            return None
        for im in self.db.impls:
            if im["trait"].split("::")[-1] == "Drop":
                env = {}
                if unify(im["args"][0], t, env):
                    for name, k, kind, ty in im["items"]:
                        if name == "drop" and k in self.db.bodies:
                            return k, env
        return None

    # ------------------------------------------------------------------ return
    def do_return(self, n, st, ctx, t):
        v = self.read(st, ("L", ctx.id, 0), ())
        if ctx.parent is None and self.opts.drive and v.op == "agg" and isinstance(v.a[0], tuple) and v.a[0][0] == "coroutine" \
                and v.a[0][1] in self.db.bodies and ctx.bb == 0:
            # an async function: its value is awaited by the caller
            key = v.a[0][1]
            c2 = self.ctx(None, 1, key, self.db.bodies[key], self.closure_env(key, v.a[0][2]))
            for r in [r for r in st.mem if r[0] == "L" and r[1] == ctx.id]:
                del st.mem[r]
            st.mem[("L", c2.id, 1)] = v
            st.mem[("L", c2.id, 2)] = mk("sym", "cx")
            self.flow(n, st, c2, 0)
            return
        if ctx.parent is None:
            n.events.append(Ev("ret", "return", args=(v,), deep=(self.deep(st, v),), res=v, line=t[1] if len(t) > 1 else None, file=ctx.body.file, ctx=ctx, bb=n.bb,
                               facts=dict(st.facts), where=ctx.key, state=st.copy()))
            self.stop(n, st, [])
            return
        selfv = st.mem.get(("L", ctx.id, 1))
        for r in [r for r in st.mem if r[0] == "L" and r[1] == ctx.id]:
            del st.mem[r]
        for k in [k for k in st.loops if k[0] == ctx.id]:
            del st.loops[k]
        p = ctx.parent
        pt = p.body.blocks[ctx.bb]["t"]
        post = ctx.post
        if post == "drop":
            root, proj = self.place(st, p, pt[1])
            # remaining parts
            ty = self.norm(subst(pt[4], p.env))
            self.write(st, root, proj, MOVED)
            self.gc(st)
            self.flow(n, st, p, pt[2])
            return
        if post is not None:
            if post == "ready":
                v = agg(("adt", "core::task::poll::Poll"), 0, (v,))
            elif post == "arr1":
                v = agg("array", 0, (v,))
            elif post == "some":
                v = agg(("adt", "core::option::Option"), 1, (v,))
        if pt[0] != "call":
            raise Undecided("return into non-call")
        root, proj = self.place(st, p, pt[3])
        self.write(st, root, proj, v)
        self.gc(st)
        if pt[4] is None:
            self.stop(n, st, [Ev("diverge", "diverge", args=(), line=pt[7], file=p.body.file, ctx=p, bb=ctx.bb, where=p.key)])
            return
        self.flow(n, st, p, pt[4])

    def gc(self, st):
        hs = [r for r in st.mem if r[0] in ("H", "T")]
        if not hs:
            return
        live = set()
        work = [v for r, v in st.mem.items() if r[0] not in ("H", "T")]
        while work:
            v = work.pop()
            for x in subterms(v):
                if x.op == "ref" and x.a[0][0] in ("H", "T") and x.a[0] not in live:
                    live.add(x.a[0])
                    if x.a[0] in st.mem:
                        work.append(st.mem[x.a[0]])
        for r in hs:
            if r not in live:
                del st.mem[r]

    # ------------------------------------------------------------------ calls
    def do_call(self, n, st, ctx, bb, t):
        c = t[1]
        args = [self.operand(st, ctx, a) for a in t[2]]
        argtys = [self.oper_ty(ctx, a) for a in t[2]]
        call = Call(self, n, st, ctx, bb, t, args, argtys)
        if c[0] == "fn":
            call.key = c[1]
            call.targs = tuple(self.norm(subst(a, ctx.env)) for a in c[2])
            if len(c) > 3 and not any(contains_param(a) for a in c[2]):
                pass
            self.invoke(call)
        else:
            f = self.operand(st, ctx, c[1])
            self.call_value(call, f, args, argtys)

    def invoke(self, call):
        db = self.db
        key, targs = call.key, call.targs
        call.short = short = db.short(key)
        d = db.defs.get(key) or {}
        # explicit hooks of the check, before anything else
        if key.endswith("::{constructor#0}") and str(d.get("kind", "")).startswith("Ctor"):
            par = key[:-len("::{constructor#0}")]
            v = None
            if par in db.adts:
                v = agg(("adt", par), 0, call.args)
            elif par.rsplit("::", 1)[0] in db.adts:
                for i, x in enumerate(db.adts[par.rsplit("::", 1)[0]]["variants"]):
                    if x["name"] == par.rsplit("::", 1)[1]:
                        v = agg(("adt", par.rsplit("::", 1)[0]), i, call.args)
            if v is not None:
                return call.finish(call.st, v)
        h = self.opts.hooks.get(short) or self.opts.hooks.get(key)
        if h is not None:
            r = h(call)
            if r is not False:
                return
        if d.get("container") == "trait":
            im = self.find_impl(d["parent"], targs)
            if im is not None:
                for name, k, kind, ty in im[0]["items"]:
                    if name == d["name"] and k in db.bodies:
                        imd = db.defs.get(k) or {}
                        # impl generics by env, method generics after the trait's
                        env = dict(im[1])
                        tg = d.get("generics", [])
                        own = targs[len([x for x in tg if True]) - self.own_generics(d):] if self.own_generics(d) else ()
                        ig = imd.get("generics", [])
                        for g, a in zip(ig[len(ig) - len(own):] if own else [], own):
                            env[g[1]] = a
                        call.implkey = k
                        call.env = env
                        if self.opts.opaque(short, key, targs) or self.opts.opaque(db.short(k), k, targs):
                            return self.opaque(call)
                        return self.inline(call, k, env, call.args)
        if self.opts.opaque(short, key, targs):
            return self.opaque(call)
        h = self.pymodels.get(short) or self.pymodels.get(short.split("::")[-1] if short.count("::") > 2 else short)
        if h is None and not d.get("local"):
            h = self.pymodels.get("::".join(short.split("::")[-2:]))
        if h is not None:
            r = h(call)
            if r is not False:
                return
        mk_ = self.models.model_key(self, call)
        if mk_ is not None:
            k, env = mk_
            return self.inline(call, k, env, call.args)
        if d.get("container") == "trait" and key in db.bodies:
            # default method of a local trait
            env = env_of(db, key, targs)
            tt = targs[0] if targs else None
            if tt is not None and tt[0] not in ("param", "alias", "dyn"):
                return self.inline(call, key, env, call.args)
            if tt is not None and self.find_impl(d["parent"], targs) is not None:
                return self.inline(call, key, env, call.args)
        if d.get("container") != "trait" and key in db.bodies:
            return self.inline(call, key, env_of(db, key, targs), call.args)
        self.opaque(call)

    def own_generics(self, d):
        g = d.get("generics") or []
        par = self.db.traits.get(d.get("parent")) or {}
        pn = par.get("generics")
        if isinstance(pn, int):
            return len(g) - pn
        if pn is not None:
            return len(g) - len(pn)
        for p in par.get("preds") or ():
            # the predicate a trait has on itself lists its parameters
            if p[0] == "trait" and p[1] == d.get("parent"):
                return max(0, len(g) - len([a for a in p[2]]))
        return max(0, len(g) - 1)

    def inline(self, call, key, env, args, post=None, events=()):
        ctx = call.ctx
        if ctx.depth >= self.opts.max_depth or sum(1 for k in ctx.chain if k == key) >= 3:
            self.incomplete.append("inlining limit at " + key)
            return self.opaque(call)
        body = self.db.bodies[key]
        c = self.ctx(ctx, call.bb, key, body, env, post)
        st = call.st
        for i, a in enumerate(args):
            if i + 1 > body.argc:
                break
            st.mem[("L", c.id, i + 1)] = a
        self.flow(call.n, st, c, 0, events=list(events) + call.pre)

    def closure_env(self, key, parent_args):
        k = key
        while "::{closure#" in k:
            k = k[:k.rindex("::{closure#")]
        return env_of(self.db, k, parent_args)

    def call_value(self, call, f, args, argtys, by=None, place=None):
        """Call a callable value with untupled arguments. `by`: how the callee is held: 'val', 'ref'."""
        while f.op == "ref" and not (f.a[0][0] == "obj"):
            x = self.read(call.st, f.a[0], f.a[1])
            place = (f.a[0], f.a[1])
            f = x
        if f.op == "fn":
            call.key, call.targs, call.args, call.argtys = f.a[0], f.a[1], list(args), list(argtys)
            return self.invoke(call)
        if f.op == "agg" and isinstance(f.a[0], tuple) and f.a[0][0] == "closure":
            key = f.a[0][1]
            body = self.db.bodies.get(key)
            if body is None:
                return self.opaque(call)
            env = self.closure_env(key, f.a[0][2])
            selft = body.locals[1] if body.argc >= 1 else None
            if selft is not None and selft[0] == "ref":
                if place is None:
                    r = ("T", call.ctx.id, call.bb)
                    call.st.mem[r] = f
                    place = (r, ())
                a0 = self.mkref(*place)
            else:
                a0 = f
                if place is not None:
                    self.write(call.st, place[0], place[1], MOVED)
            call.short = self.db.short(key)
            return self.inline(call, key, env, [a0] + list(args))
        if f.op == "agg" and isinstance(f.a[0], tuple) and f.a[0][0] == "adt" and f.a[0][1].split("::")[-1] == "AssertUnwindSafe" and len(f.a[2]) == 1:
            return self.call_value(call, f.a[2][0], args, argtys, by, None if place is None else (place[0], place[1] + (("f", 0, None),)))
        call.short = "<value>"
        call.key = "<value>"
        call.targs = ()
        call.args = [f] + list(args)
        call.argtys = [("other", "?")] + list(argtys)
        return self.opaque(call)

    def opaque(self, call, pure=None, kind="call"):
        """An external or deliberately un-inlined call."""
        st = call.st
        name = call.short
        args = tuple(call.args)
        if pure is None:
            pure = name in self.models.PURE or name in self.opts.pure
        if pure:
            res = mk("call", name, tuple(self.deep(st, a, 2) if a.op == "ref" and a.a[0][0] in ("L", "T", "H") else a for a in args), None)
        else:
            res = mk("call", name, (), (call.ctx.id, call.bb))
            self.purge(st, res)
        ev = Ev(kind, name, key=call.key, args=args, deep=tuple(self.deep(st, a) for a in args), res=res, line=call.line,
                file=call.ctx.body.file, ctx=call.ctx, bb=call.bb, targs=call.targs, where=call.ctx.key,
                ty=call.argtys)
        ev.facts = dict(st.facts)
        k0 = getattr(call, "implkey", None) or call.key
        if k0 in self.db.bodies and k0 + "::{closure#0}" in self.db.bodies and self.returns_coroutine(k0):
            self.async_calls.add(res)
        if not pure:
            for i, (a, t) in enumerate(zip(args, call.argtys)):
                self.havoc(st, a, t, res, i)
        call.finish(st, res, [ev])

    def returns_coroutine(self, key):
        for b in self.db.bodies[key].blocks:
            for s in b["s"]:
                if s[0] == "=" and "coroutine" in str(s[2])[:200]:
                    return True
        return False

    def purge(self, st, res):
        for t in [t for t in st.facts if t is res or res in subterms(t)]:
            del st.facts[t]

    def havoc(self, st, a, t, res, i):
        mutref = (t[0] == "ref" and t[1]) or (t[0] == "ptr" and t[1])
        if t[0] == "adt" and adtname(t) == "Pin" and t[2] and t[2][0][0] == "ref" and t[2][0][1]:
            mutref = True
        if not mutref:
            return
        root, proj = self.target(a)
        self.write(st, root, proj, mk("hav", res, i))
        # through references held inside (arrays of IoSliceMut and the like)


class Call:
    __slots__ = ("ip", "n", "st", "ctx", "bb", "t", "args", "argtys", "key", "targs", "short", "line", "implkey", "env", "pre")

    def __init__(self, ip, n, st, ctx, bb, t, args, argtys):
        self.ip, self.n, self.st, self.ctx, self.bb, self.t = ip, n, st, ctx, bb, t
        self.args, self.argtys = args, argtys
        self.line = t[7]
        self.key = self.targs = self.short = self.implkey = self.env = None
        self.pre = []

    def point(self):
        return (self.ctx.id, self.bb)

    def finish(self, st, val, events=(), facts=None):
        """Store the result and go on (or stop when the callee never returns)."""
        t = self.t
        ip = self.ip
        if t[4] is None:
            evs = self.pre + list(events)
            ip.stop(self.n, st, evs + [Ev("diverge", self.short, args=tuple(self.args), line=self.line, file=self.ctx.body.file, ctx=self.ctx, bb=self.bb, key=self.key, where=self.ctx.key)])
            return
        root, proj = ip.place(st, self.ctx, t[3])
        if root[0] in ("obj", "static"):
            events = list(events) + [Ev("write", "write", args=(mk("ref", root, proj), val), line=self.line, file=self.ctx.body.file, ctx=self.ctx, bb=self.bb, res=val, where=self.ctx.key)]
        ip.write(st, root, proj, val)
        ip.flow(self.n, st, self.ctx, t[4], events=self.pre + list(events), facts=facts)

    def ret(self, val, event=None):
        self.finish(self.st, val, [event] if event else ())

    def fork(self, alts):
        """alts: list of (conds, value-or-callable)."""
        for conds, val in alts:
            s2 = self.st.copy()
            if all(s2.assume(*c) for c in conds):
                v = val(s2) if callable(val) else val
                self.finish(s2, v, facts=self.ip.diff(self.st, s2))

    def deref(self, i):
        r, p = self.ip.target(self.args[i])
        return self.ip.read(self.st, r, p)

    def rtype(self):
        return self.ip.ty(self.ctx, self.t[6]) if isinstance(self.t[6], tuple) else None

    def event(self, kind="call", res=None):
        ip = self.ip
        e = Ev(kind, self.short, key=self.key, args=tuple(self.args), deep=tuple(ip.deep(self.st, a) for a in self.args), res=res,
               line=self.line, file=self.ctx.body.file, ctx=self.ctx, bb=self.bb, targs=self.targs, where=self.ctx.key, ty=self.argtys)
        e.facts = dict(self.st.facts)
        return e
