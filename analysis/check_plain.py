"""C03: raw memory images only of plain data."""
from common import *
from paths import positions
from mirdb import subst

HANDLES = {"BorrowedFd", "BorrowedHandle", "BorrowedSocket", "OwnedFd", "OwnedHandle", "RawHandle"}


def last(k):
    return (k or "").split("::")[-1]


def identity(db, t):
    """Strip the crate's identity alias (its only implementation is `Type = Self`)."""
    if t[0] == "alias" and t[1] == "proj" and t[3]:
        tr = t[2].rsplit("::", 1)[0]
        ims = db.impls_by_trait.get(tr, ())
        if len(ims) == 1 and db.is_local(tr) if hasattr(db, "is_local") else len(ims) == 1:
            im = ims[0]
            for name, k, kind, ty in im["items"]:
                if name == last(t[2]) and ty is not None:
                    env = {}
                    from mirdb import unify
                    if unify(im["args"], tuple(t[3][:len(im["args"])]), env):
                        return identity(db, subst(ty, env))
    return t


def plain(db, t, assumed=frozenset(), seen=()):
    """(True, '') plain all the way down; (False, why); (None, why) not known. Types in `assumed` are plain by a where clause."""
    t = identity(db, t)
    if t in assumed:
        return True, ""
    k = t[0]
    if k in ("int", "float", "bool", "char", "never"):
        return True, ""
    if k == "other" and t[1] in ("!", "char", "bool") or k == "other" and str(t[1]).startswith("pattern_type!(") and str(t[1])[14:].split()[0] in (
            "u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize", "char"):
        return True, ""
    if k == "other" and str(t[1]).startswith("pattern_type!(*"):
        return False, "contains a pointer"
    if k == "tuple":
        return join(plain(db, x, assumed, seen) for x in t[1])
    if k in ("array", "slice"):
        return plain(db, t[1], assumed, seen)
    if k == "param":
        return False, f"the parameter {t[1]} is not required to be plain"
    if k in ("ref", "ptr", "fnptr", "fn", "fndef", "dyn", "closure", "coroutine", "str"):
        return False, f"contains {tystr(t)}"
    if k == "alias":
        return None, f"{tystr(t)} not resolved"
    if k == "adt":
        n = last(t[1])
        if n == "PhantomData":
            return True, ""
        if n in HANDLES:
            return False, f"contains the handle type {n}"
        if n == "NonZero" and len(t[2]) == 1:
            return plain(db, t[2][0], assumed, seen)
        a = db.adts.get(t[1])
        if a is None:
            return None, f"{tystr(t)} is not known"
        if a.get("phantom"):
            return True, ""
        if a.get("has_dtor"):
            return False, f"{tystr(t)} owns something (it has a destructor)"
        if t in seen:
            return True, ""
        if a["kind"] == "union":
            return None, f"{tystr(t)} is a union"
        env = {g[1]: x for g, x in zip(a.get("generics") or [], t[2])}
        return join((lambda r, f=f: (r[0], f"{last(t[1])}.{f[0]}: {r[1]}" if r[1] else ""))(plain(db, subst(f[1], env), assumed, seen + (t,)))
                    for v in a["variants"] for f in v["fields"])
    return None, f"{tystr(t)} not understood"


def join(rs):
    out = (True, "")
    for r in rs:
        if r[0] is False:
            return r
        if r[0] is None:
            out = r
    return out


def pod_trait(db):
    for t in list(db.traits) + list(db.impls_by_trait):
        if last(t) == "PlainOldData":
            return t
    return None


def assumptions(db, im, tr):
    return frozenset(identity(db, p[2][0]) for p in im["preds"] if p[0] == "trait" and p[1] == tr)


def check_table(db, rep, where="", only=None):
    tr = pod_trait(db)
    if not rep.anchor(f"{where}marker trait for plain data", tr):
        return
    n = 0
    for im in db.impls_by_trait.get(tr, ()):
        t = im["args"][0]
        if only is not None and not only(im):
            continue
        n += 1
        asm = assumptions(db, im, tr)
        # a where clause on the type itself says nothing
        r, why = plain(db, t, asm - {t})
        rep.oblige("L1-plain", r, f"{where}{tystr(t)}", None, f"{tystr(t)} is declared plain data ({im.get('file')}:{im.get('line')}), but {why}", key=f"L1-plain:{where}{tystr(t)}")
    rep.anchor(f"{where}types declared plain", n, 1)


IMAGES = {"rawimg", "rawbytes", "from_bytes"}


def elem(t):
    while t[0] in ("slice", "array"):
        t = t[1]
    return t


def check_images(A, rep, label, g, seen):
    """Every raw image in any argument or result on any path is of a type that is plain there."""
    db = A.db
    for p in positions(g, lambda e: e.kind in ("call", "ret", "mutate", "write", "io")):
        e = p.ev
        ts = set()
        for a in (e.deep or e.args or ()):
            if isinstance(a, Term):
                for x in subterms(a):
                    if x.op == "app" and x.a[0] in IMAGES:
                        ts.add(x.a[1][0])
        if not ts:
            continue
        facts = e.facts if e.facts is not None else p.node.state.facts
        for tt in ts:
            if tt.op != "ty":
                continue
            t = elem(tt.a[0])
            if t[0] == "adt" and last(t[1]) == "MaybeUninit" and t[2]:
                t = elem(t[2][0])
            if t[0] == "adt" and t[1].split("::")[0] in ("libc", "rustix", "linux_raw_sys"):
                continue
            asm = frozenset(elem(x.a[1][1].a[0]) for x, w in facts.items() if x.op == "app" and x.a[0] == "implements" and w == 1
                            and "PlainOldData" in str(x.a[1][0].a) and x.a[1][1].op == "ty")
            key = (label, t, t in asm, e.name)
            if key in seen:
                continue
            seen.add(key)
            r, why = plain(db, t, asm)
            rep.oblige("L2-image", r, f"{label}: {tystr(t)}", e, f"a raw image of {tystr(t)} is made where it is not known to be plain: {why}", key=f"L2-image:{label}:{tystr(t)}")


def check(A, rep, prop, tier):
    from check_codec import context
    import check_wire
    check_table(A.db, rep)
    C = context(A)
    seen = set()
    f = C.ops.opaque(frozenset())
    n = 0
    for ty, s, d, im in C.impls():
        for k in (s, d):
            if k is not None:
                n += 1
                check_images(A, rep, tystr(ty), A.run(k, opaque=f), seen)
    nt = lambda short, key, targs: C.ops.keys.get(key, ("",))[0] == "NonTrivialObject"
    for k, (adt, name) in C.ops.keys.items():
        if adt in ("Serializer", "Deserializer", "Object") and k in A.db.bodies and A.db.defs[k].get("container") != "trait":
            n += 1
            check_images(A, rep, f"{adt}::{name}", A.run(k, opaque=nt), seen)
    for r in check_wire.graphs(A, rep):
        n += 1
        check_images(A, rep, r.label, r.g, seen)
    rep.anchor("functions searched for raw images", n, 50)
    rep.anchor("raw images", len(seen), 4)
    # what the derive declares plain: every kind of data type it accepts
    f, err = witness("derive")
    if f is None:
        rep.notes.append("the witness crate does not compile (see C02): derived declarations are not checked")
    else:
        W = DB([f] + [os.path.join(BUILD, "dump", x) for x in ("crossmist.json", "models.json")])
        check_table(W, rep, "witness: ", lambda im: im["args"][0][0] == "adt" and im["args"][0][1].startswith("witness_derive::"))
    # the two sides decide by the same condition
    for group, name, ok, detail, ev in A._prims:
        if group == "data" and ("serialize" in name or "deserialize" in name):
            rep.oblige("L3-same-choice", ok, name, ev, f"{name}: {detail}")


RULES = {"C03": {
    "L1-plain": "every type declared plain data consists, under the where clauses of the declaration, only of numbers, characters, flags and other plain data; no pointer, function, destructor or handle anywhere",
    "L2-image": "a raw image of a type is only made or read where the type is known to be plain",
    "L3-same-choice": "writing uses the image exactly when reading does (for plain types), and the type's own code otherwise"}}
EXPLAIN = {"C03": "All declarations of plain data are checked structurally through all fields (including private fields of standard types); every raw image made anywhere on any path of encoding, decoding, sending and receiving is checked against the facts known there."}
