"""Meaning of the standard-library functions the analysed code calls (those not modelled in Rust in
/verif/models). Everything not listed here is an opaque event."""
from terms import *
from mirdb import env_of, tystr, subst

MODELS = {}
OPTION = ("adt", "core::option::Option")
RESULT = ("adt", "core::result::Result")
NONE = agg(OPTION, 0, ())


def some(x):
    return agg(OPTION, 1, (x,))


def ok(x):
    return agg(RESULT, 0, (x,))


def err(x):
    return agg(RESULT, 1, (x,))


COLL = {"Vec", "VecDeque", "LinkedList", "BinaryHeap", "BTreeSet", "HashSet", "BTreeMap", "HashMap", "String"}
MAPS = {"BTreeMap", "HashMap"}

PURE = set("""
size_of size_of_val core::mem::size_of core::mem::align_of core::future::get_context Waker::from_raw
Context::from_waker RawWaker::new RawWakerVTable::new Arguments::new Argument::new_display Argument::new_debug
core::fmt::rt::Arguments::new_v1 alloc::fmt::format Arguments::from_str Arguments::new_const
Pid::as_raw Pid::from_raw SendFlags::empty RecvFlags::empty FdFlags::empty WaitOptions::empty
WaitStatus::exit_status CStr::as_ptr slice::as_ptr_range slice::as_mut_ptr_range BitOr::bitor
ToString::to_string Hash::hash RecvFlags::bits RecvFlags::contains
ReturnFlags::contains ReturnFlags::bits RecvFlags::union SendFlags::union WaitStatus::exited WaitStatus::signaled
WaitStatus::terminating_signal WaitStatus::as_raw ptr::is_null Pid::as_raw_nonzero RecvFlags::intersects ReturnFlags::intersects
ArgumentV1::new core::any::type_name Errno::raw_os_error Errno::from_raw_os_error
""".split())


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def adtn(t):
    return t[1].split("::")[-1] if t[0] == "adt" else None


def peel(t):
    while t[0] in ("ref", "ptr"):
        t = t[2]
    return t


# ------------------------------------------------------------------ which Rust model applies
FREE = {"std::panic::catch_unwind": "catch_unwind", "core::mem::replace": "replace", "core::mem::take": "take", "core::mem::swap": "swap"}


def model_key(ip, call):
    db = ip.db
    s = call.short
    parts = s.split("::")
    if s in FREE:
        k = "models::" + FREE[s]
        return (k, env_of(db, k, call.targs)) if k in db.bodies else None
    if parts[-1] == "retry_on_intr":
        k = "models::retry_on_intr"
        return k, env_of(db, k, call.targs)
    if len(parts) != 2:
        return None
    d = db.defs.get(call.key) or {}
    if d.get("local") and not call.key.startswith("models::"):
        return None
    base = "models::" + parts[0] + "__" + parts[1]
    if base in db.bodies:
        env = env_of(db, base, call.targs)
        if parts[1] == "extend":
            env = named_env(db, base, B=call.targs[0], I=call.targs[-1])
        return base, env
    if not call.args and not call.targs:
        return None
    # dispatch on the value, then on the static type
    names = []
    if call.args:
        v = call.args[0]
        for _ in range(4):
            if v.op == "agg" and isinstance(v.a[0], tuple) and v.a[0][0] == "adt" and v.a[0][1].split("::")[-1] in ("Pin",):
                v = v.a[2][0]
                continue
            if v.op == "ref":
                v = ip.read(call.st, v.a[0], v.a[1])
                continue
            break
        if v.op == "agg" and isinstance(v.a[0], tuple) and v.a[0][0] == "adt":
            names.append(v.a[0][1].split("::")[-1])
    if call.targs:
        t = call.targs[0]
        if t[0] == "adt":
            names.append(adtn(t))
        if t[0] == "ref":
            names.append("ref")
    if parts == ["Iterator", "collect"] and len(call.targs) >= 2:
        b = call.targs[1]
        if b[0] == "adt" and adtn(b) in ("Result", "Option"):
            k = base + "__" + adtn(b)
            return k, named_env(db, k, B=b[2][0], E=b[2][1] if len(b[2]) > 1 else None, I=call.targs[0])
        k = base + "__seq"
        return k, named_env(db, k, B=b, I=call.targs[0])
    if parts[1] in ("try_for_each", "try_fold"):
        names = ["Result"]
    for nm in names:
        k = base + "__" + nm
        if k in db.bodies:
            gs = (db.defs.get(k) or {}).get("generics") or []
            env = {}
            if nm in ("Result", "Option") and call.targs:
                self_t = call.targs[0]
                if parts[0] == "FromResidual":
                    r = call.targs[1] if len(call.targs) > 1 else None
                    env = named_env(db, k, T=self_t[2][0], F=self_t[2][1] if len(self_t[2]) > 1 else None,
                                    E=r[2][1] if r is not None and r[0] == "adt" and len(r[2]) > 1 else None)
                elif parts[0] == "Try":
                    env = named_env(db, k, T=self_t[2][0], E=self_t[2][1] if len(self_t[2]) > 1 else None)
            return k, env
    return None


def named_env(db, key, **kw):
    d = db.defs.get(key) or {}
    env = {}
    for g in d.get("generics") or []:
        if kw.get(g[0]) is not None:
            env[g[1]] = kw[g[0]]
    return env


# ------------------------------------------------------------------ the intrinsics of the model crate
@model("models::would_block")
def m_wb(c):
    c.ret(is_kind(c.ip, errval(c.deref(0)), "WouldBlock"))


@model("models::interrupted")
def m_intr(c):
    c.ret(is_kind(c.ip, errval(c.deref(0)), "Interrupted"))


@model("models::any_bool")
def m_any(c):
    c.ret(mk("call", "any", (), c.point()))


@model("models::acc_new")
def m_accnew(c):
    c.ret(coll_new(c.targs[0]))


def collname(t):
    t = peel(t)
    n = adtn(t)
    if n == "Box" and t[2] and t[2][0][0] == "slice":
        return "Vec"
    return n if n in COLL else tystr(t)


def coll_new(t):
    return app("new", mk("str", collname(t)))


@model("models::acc_push")
def m_accpush(c):
    root, proj = c.ip.target(c.args[0])
    old = c.ip.read(c.st, root, proj)
    c.ip.write(c.st, root, proj, app("add", mk("str", collname(c.argtys[0])), old, c.args[1]))
    c.ret(UNIT)


@model("models::convert")
def m_convert(c):
    a, b = c.targs[0], c.targs[1]
    do_from(c, b, a, c.args[0])


@model("models::next_of")
def m_nextof(c):
    return False


# ------------------------------------------------------------------ errors
ERRNO = {"INTR": "Interrupted", "AGAIN": "WouldBlock", "WOULDBLOCK": "WouldBlock"}


def errval(e):
    """Strip conversions that keep the error kind."""
    while True:
        if e.op == "app" and e.a[0] == "conv":
            e = e.a[1][1]
        elif e.op == "&":
            e = e.a[0]
        else:
            return e


def kind_adt(ip):
    for k in ip.db.adts:
        if k.endswith("::ErrorKind") and "io" in k:
            return k
    return "std::io::ErrorKind"


def kind_index(ip, name):
    a = ip.db.adts.get(kind_adt(ip))
    if a:
        for i, v in enumerate(a["variants"]):
            if v["name"] == name:
                return i
    return {"WouldBlock": 13, "Interrupted": 35}.get(name, 99)


def kind_of(e):
    e = errval(e)
    if e.op == "app" and e.a[0] == "ioerror":
        return e.a[1][0]
    return app("kind", e)


def is_kind(ip, e, name):
    k = kind_of(e)
    i = kind_index(ip, name)
    if k.op == "agg":
        return num(k.a[1] == i)
    return compare("Eq", mk("app", "variant", (k,)), num(i))


@model("Error::kind")
def m_kind(c):
    k = kind_of(c.deref(0))
    c.ret(k)


@model("Error::new")
def m_errnew(c):
    c.ret(app("ioerror", c.args[0], c.args[1]))


@model("Error::other")
def m_errother(c):
    c.ret(app("ioerror", agg(("adt", kind_adt(c.ip)), kind_index(c.ip, "Other"), ()), c.args[0]))


@model("Errno::kind")
def m_errnokind(c):
    c.ret(app("kind", errval(c.deref(0) if c.argtys[0][0] == "ref" else c.args[0])))


# ------------------------------------------------------------------ conversions
def find_from(c, b, a):
    ip = c.ip
    for tk in ip.db.traits:
        if tk.split("::")[-1] == "From":
            return ip.find_impl(tk, (b, a))
    for tk in ip.db.impls_by_trait:
        if tk.split("::")[-1] == "From":
            return ip.find_impl(tk, (b, a))
    return None


def do_from(c, b, a, x):
    ip = c.ip
    if a == b:
        return c.ret(x)
    im = local_impl(ip, "From", (b, a), "from")
    if im:
        return ip.inline(c, im[0], im[1], [x])
    if adtn(b) in ("Option",) and b[2] and b[2][0] == a:
        return c.ret(some(x))
    if adtn(b) == "Box" and b[2] and b[2][0] == a:
        return box_new(c, x)
    if a[0] in ("int", "bool", "char") and b[0] == "int":
        return c.ret(ip.intcast(x, a, b))
    if adtn(a) == "Box" and adtn(b) in ("Vec", "String") or adtn(a) in ("Vec", "String") and adtn(b) == "Box":
        return c.ret(x)
    if adtn(a) == "Box" and adtn(b) == "Pin":
        return c.ret(agg(("adt", b[1]), 0, (x,)))
    c.short = "From::from"
    v = app("conv", mk("ty", b), x)
    c.ret(v, c.event(res=v))


def local_impl(ip, trait, args, item):
    for tk, ims in ip.db.impls_by_trait.items():
        if tk.split("::")[-1] != trait:
            continue
        r = ip.find_impl(tk, args)
        if r is None:
            continue
        for name, k, kind, ty in r[0]["items"]:
            if name == item and k in ip.db.bodies:
                return k, r[1]
    return None


@model("From::from")
def m_from(c):
    do_from(c, c.targs[0], c.targs[1] if len(c.targs) > 1 else c.argtys[0], c.args[0])


@model("Into::into")
def m_into(c):
    do_from(c, c.targs[1], c.targs[0], c.args[0])


@model("TryInto::try_into", "TryFrom::try_from")
def m_tryinto(c):
    a, b = (c.targs[0], c.targs[1]) if c.short.startswith("TryInto") else (c.targs[1], c.targs[0])
    im = local_impl(c.ip, "TryFrom", (b, a), "try_from")
    if im:
        return c.ip.inline(c, im[0], im[1], [c.args[0]])
    if a[0] == "int" and b[0] == "int":
        v = c.ip.intcast(c.args[0], a, b)
        if v is c.args[0]:
            return c.ret(ok(v))
        w = app("try_from", mk("ty", b), c.args[0])
        return c.ret(w)
    c.short = "TryFrom::try_from"
    c.targs = (b, a)
    fallible_conv(c)


# ------------------------------------------------------------------ boxes and pointers
def box_new(c, x):
    r = ("H", c.ctx.id, c.bb)
    c.st.mem[r] = x
    c.ret(mk("ref", r, ()))


@model("Box::new")
def m_boxnew(c):
    box_new(c, c.args[0])


@model("Box::pin")
def m_boxpin(c):
    r = ("H", c.ctx.id, c.bb)
    c.st.mem[r] = c.args[0]
    c.ret(agg(("adt", "core::pin::Pin"), 0, (mk("ref", r, ()),)))


@model("Box::into_raw", "Box::from_raw", "Box::leak", "Box::as_ptr", "Pin::get_unchecked_mut", "Pin::get_mut",
       "Box::into_pin", "Pin::into_inner", "Pin::into_inner_unchecked", "Pin::get_ref", "Pin::as_mut", "Pin::as_ref")
def m_ptrid(c):
    v = c.args[0]
    n = c.short
    if n in ("Pin::get_unchecked_mut", "Pin::get_mut", "Pin::into_inner", "Pin::into_inner_unchecked", "Pin::get_ref"):
        return c.ret(unpin(v))
    if n == "Box::into_pin":
        return c.ret(agg(("adt", "core::pin::Pin"), 0, (v,)))
    if n in ("Pin::as_mut", "Pin::as_ref"):
        x = unpin(c.deref(0))
        return c.ret(agg(("adt", "core::pin::Pin"), 0, (x,)))
    if n in ("Box::into_raw", "Box::from_raw", "Box::leak"):
        return c.ret(v, c.event(res=v))
    return c.ret(v)


def unpin(v):
    if v.op == "agg" and v.a[0] == ("adt", "core::pin::Pin"):
        return v.a[2][0]
    if v.op in ("ref",):
        return v
    return mk("fld", v, None, 0)


@model("core::pin::pin_new_unchecked_in_helper")
def m_pinhelper(c):
    r, p = c.ip.target(c.args[0])
    c.ret(agg(("adt", "core::pin::Pin"), 0, (c.ip.mkref(r, p + (("f", 0, None),)),)))


@model("Pin::new_unchecked", "Pin::new")
def m_pin(c):
    c.ret(agg(("adt", "core::pin::Pin"), 0, (c.args[0],)))


@model("core::slice::raw::from_raw_parts", "core::slice::raw::from_raw_parts_mut", "core::slice::from_raw_parts",
       "core::slice::from_raw_parts_mut", "core::ptr::slice_from_raw_parts", "core::ptr::slice_from_raw_parts_mut")
def m_frp(c):
    p, n = c.args
    c.ret(raw_slice(c.ip, c.st, p, n, c.targs[0] if c.targs else None))


def raw_slice(ip, st, p, n, t):
    if p.op == "pcast":
        src, dst, base = p.a
        if src[0] in ("array", "slice") and src[1] == dst:
            r, q = ip.target(base)
            if n is ip.length(ip.read(st, r, q)) or (src[0] == "array" and n is kconst(src[2])):
                return base
            return ip.mkref(r, ip.addsub(q, num(0), n))
        return app("rawimg", mk("ty", src), base, n, mk("ty", dst))
    if p.op == "app" and p.a[0] == "ptradd":
        b, off = p.a[1]
        r, q = ip.target(b)
        return ip.mkref(r, ip.addsub(q, off, add(off, n)))
    r, q = ip.target(p)
    if p.op == "ref" and q == () or p.op == "ref":
        v = ip.read(st, r, q)
        if n is ip.length(v):
            return p
        return ip.mkref(r, ip.addsub(q, num(0), n))
    return app("rawimg", mk("ty", t), p, n, mk("ty", t))


def kconst(k):
    return num(int(k[1])) if k[0] == "kint" else mk("sym", "const", str(k[1]))


@model("Vec::as_ptr", "Vec::as_mut_ptr", "slice::as_ptr", "slice::as_mut_ptr", "MaybeUninit::as_mut_ptr",
       "MaybeUninit::as_ptr", "str::as_ptr", "Vec::as_slice", "Vec::as_mut_slice", "array::as_slice",
       "String::as_str", "String::as_mut_str", "PathBuf::as_path", "Path::as_os_str", "PathBuf::as_os_str", "OsString::as_os_str",
       "CString::as_c_str", "array::as_mut_slice", "MaybeUninit::assume_init_ref", "MaybeUninit::assume_init_mut",
       "NonNull::as_ptr", "AsRef::as_ref", "AsMut::as_mut", "Borrow::borrow", "BorrowMut::borrow_mut", "array::as_ref",
       "Box::as_ref", "Box::as_mut", "Box::as_mut_ptr", "array::each_ref", "MaybeUninit::write_ref", "Cell::as_ptr",
       "ManuallyDrop::deref", "Cell::get_mut", "slice::as_ref", "NonNull::as_ref", "NonNull::as_mut", "UnsafeCell::get")
def m_sameplace(c):
    t = c.argtys[0]
    v = c.args[0]
    if t[0] == "adt" and adtn(t) == "NonNull":
        return c.ret(c.ip.mkref(*c.ip.target(v)))
    pt = peel(t)
    if adtn(pt) == "Box" or adtn(pt) in ("Rc", "Arc"):
        return m_deref(c)
    if c.short.split("::")[-1] in ("as_ref", "borrow", "as_mut", "borrow_mut") and c.short.split("::")[0] in ("AsRef", "Borrow", "AsMut", "BorrowMut"):
        x = c.args[0]
        while t[0] == "ref" and t[2][0] == "ref":
            x = c.ip.read(c.st, *c.ip.target(x))
            t = t[2]
        if adtn(t[2]) not in ("Vec", "String", "CString", "OsString", "PathBuf", None) :
            return False
        return c.ret(x)
    if "as_ptr" in c.short or "as_mut_ptr" in c.short:
        # pointer to the first element: a cast of the sequence pointer
        if adtn(pt) == "MaybeUninit":
            return c.ret(v)
        if v.op == "app" and v.a[0] == "rawimg":
            return c.ret(c.ip.pcast(v.a[1][1], v.a[1][0].a[0], v.a[1][3].a[0]))
        el = pt[1] if pt[0] in ("slice", "array") else (pt[2][0] if adtn(pt) == "Vec" and pt[2] else ("int", "u8"))
        return c.ret(mk("pcast", ("slice", el), el, v))
    c.ret(v)


@model("Deref::deref", "DerefMut::deref_mut")
def m_deref(c):
    t = peel1(c.argtys[0])
    n = adtn(t)
    v = c.args[0]
    if n in ("Vec", "String", "CString", "OsString", "PathBuf", "Cow"):
        return c.ret(v)
    x = c.deref(0)
    if n == "MutexGuard" or (x.op == "agg" and x.a[0] == ("model", "guard")):
        m = x.a[2][0] if x.op == "agg" else mk("fld", x, None, 0)
        return c.ret(app("mdata", m))
    if n in ("Rc", "Arc"):
        return c.ret(x)
    if n in ("Box",):
        return c.ret(x)
    if n == "Pin":
        return c.ret(unpin(x))
    if n in ("ManuallyDrop", "AssertUnwindSafe", "RawImg"):
        r, p = c.ip.target(v)
        return c.ret(c.ip.mkref(r, p + (("f", 0, None),)))
    if t[0] == "ref":
        return c.ret(x)
    return False


def peel1(t):
    return t[2] if t[0] in ("ref", "ptr") else t


@model("ptr::cast", "NonNull::cast", "ptr::cast_mut", "ptr::cast_const", "ptr::as_ptr")
def m_cast(c):
    if c.short.endswith("cast") and c.argtys[0][0] == "ptr":
        rt = c.rtype()
        return c.ret(c.ip.pcast(c.args[0], c.argtys[0][2], rt[2] if rt else ("other", "?")))
    c.ret(c.args[0])


def elemplace(c, p, i):
    """Place of the i-th element after pointer p."""
    ip = c.ip
    if p.op == "pcast" and p.a[0][0] in ("slice", "array") and p.a[0][1] == p.a[1]:
        r, q = ip.target(p.a[2])
        return r, ip.addidx(q, i)
    if p.op == "app" and p.a[0] == "ptradd":
        return elemplace(c, p.a[1][0], add(p.a[1][1], i))
    r, q = ip.target(p)
    if i is num(0):
        return r, q
    return r, q + (("i", i),)


@model("ptr::add", "ptr::offset", "ptr::wrapping_add")
def m_add(c):
    p, i = c.args
    if i is num(0):
        return c.ret(p)
    if p.op == "app" and p.a[0] == "ptradd":
        return c.ret(app("ptradd", p.a[1][0], add(p.a[1][1], i)))
    c.ret(app("ptradd", p, i))


@model("ptr::write", "core::ptr::write", "ptr::write_unaligned", "core::ptr::write_unaligned", "NonNull::write")
def m_write(c):
    r, q = elemplace(c, c.args[0], num(0))
    c.ip.write(c.st, r, q, c.args[1])
    c.ret(UNIT)


@model("MaybeUninit::write")
def m_muwrite(c):
    r, q = c.ip.target(c.args[0])
    c.ip.write(c.st, r, q, c.args[1])
    c.ret(c.args[0])


@model("ptr::read", "core::ptr::read", "MaybeUninit::assume_init_read", "ptr::read_unaligned", "core::ptr::read_unaligned")
def m_read(c):
    r, q = elemplace(c, c.args[0], num(0))
    c.ret(c.ip.read(c.st, r, q))


@model("MaybeUninit::uninit")
def m_uninit(c):
    c.ret(mk("app", "uninit", ()))


@model("MaybeUninit::zeroed", "core::mem::zeroed")
def m_zeroed(c):
    c.ret(mk("app", "zeroed", ()))


@model("MaybeUninit::assume_init", "MaybeUninit::new", "ManuallyDrop::into_inner")
def m_id(c):
    if c.short == "ManuallyDrop::into_inner" and c.args[0].op == "agg":
        return c.ret(c.args[0].a[2][0])
    c.ret(c.args[0])


@model("ManuallyDrop::new")
def m_mdnew(c):
    v = agg(("adt", "core::mem::manually_drop::ManuallyDrop"), 0, (c.args[0],))
    e = c.event("forget")
    e.ty = c.argtys[0]
    c.ret(v, e)


@model("core::mem::forget", "core::mem::forget_unsized")
def m_forget(c):
    e = c.event("forget")
    e.ty = c.argtys[0]
    c.ret(UNIT, e)


@model("core::mem::drop")
def m_dropfn(c):
    ip = c.ip
    from interp import Ev
    from mirdb import tyname
    r = ("T", c.ctx.id, c.bb)
    c.st.mem[r] = c.args[0]
    parts = ip.drop_parts(c.st, r, (), c.argtys[0])
    evs, local = [], []
    for v, t, rr, p in parts:
        d = ip.local_drop(t)
        if d:
            local.append((v, t, rr, p, d))
        else:
            evs.append(Ev("drop", tyname(t), args=(v,), deep=(ip.deep(c.st, v, 3),), ty=t, line=c.line, file=c.ctx.body.file, ctx=c.ctx, bb=c.bb, where=c.ctx.key))
    if local:
        v, t, rr, p, (k, env) = local[0]
        return ip.inline(c, k, env, [ip.mkref(rr, p)], events=evs)
    c.finish(c.st, UNIT, evs)


@model("core::ptr::drop_in_place", "ptr::drop_in_place")
def m_dip(c):
    from interp import Ev
    from mirdb import tyname
    r, q = elemplace(c, c.args[0], num(0))
    t = peel1(c.argtys[0])
    parts = c.ip.drop_parts(c.st, r, q, t)
    evs = [Ev("drop", tyname(tt), args=(v,), deep=(v,), ty=tt, line=c.line, file=c.ctx.body.file, ctx=c.ctx, bb=c.bb, where=c.ctx.key) for v, tt, _, _ in parts]
    c.ip.write(c.st, r, q, MOVED)
    c.finish(c.st, UNIT, evs)


SIZES = {"bool": 1, "u8": 1, "i8": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "u64": 8, "i64": 8, "usize": 8, "isize": 8,
         "u128": 16, "i128": 16, "char": 4, "f32": 4, "f64": 8}


def size_of(ip, t):
    k = t[0]
    if k in ("int", "float"):
        return num(SIZES[t[1]])
    if k in ("bool", "char"):
        return num(SIZES[k])
    if k in ("ref", "ptr"):
        u = t[2]
        if u[0] in ("slice", "str", "dyn"):
            return num(16)
        if u[0] in ("param", "alias"):
            return app("size_of", mk("ty", ("ref", False, u)))
        return num(8)
    if k in ("fnptr",):
        return num(8)
    if k == "tuple" and not t[1]:
        return num(0)
    if k == "array":
        n = kconst(t[2])
        return mul(n, size_of(ip, t[1]))
    if k == "adt":
        a = ip.db.adt(t[1])
        if a and a["kind"] == "struct":
            env = ip.adt_env(a, t[2])
            tot = 0
            for f in a["variants"][0]["fields"]:
                s = size_of(ip, ip.norm(subst(f[1], env)))
                if s.op != "int" or s.a[0] not in (0, 8):
                    break
                tot += s.a[0]
            else:
                return num(tot)
    return app("size_of", mk("ty", t))


@model("core::intrinsics::discriminant_value")
def discriminant_value(c):
    c.ret(c.ip.discr(c.deref(0), c.targs[0]))


@model("core::mem::size_of")
def m_sizeof(c):
    c.ret(size_of(c.ip, c.targs[0]))


@model("core::mem::size_of_val")
def m_sizeofval(c):
    t = peel1(c.argtys[0])
    if t[0] == "slice":
        return c.ret(mul(c.ip.ref_len(c.st, c.args[0]), size_of(c.ip, t[1])))
    c.ret(size_of(c.ip, t))


@model("core::mem::transmute", "core::intrinsics::transmute")
def m_transmute(c):
    a, b = c.targs[0], c.targs[1]
    c.ret(transmuted(a, b, c.args[0]))


def transmuted(a, b, v):
    if a == b:
        return v
    if v.op == "app" and v.a[0] == "transmute":
        if v.a[1][0].a[0] == b:
            return v.a[1][2]
        return app("transmute", v.a[1][0], mk("ty", b), v.a[1][2])
    return app("transmute", mk("ty", a), mk("ty", b), v)


@model("core::mem::transmute_copy", "core::intrinsics::transmute_copy")
def m_tcopy(c):
    c.ret(transmuted(c.targs[0], c.targs[1], c.deref(0)))


@model("core::ptr::null", "core::ptr::null_mut")
def m_null(c):
    c.ret(mk("sym", "null"))


@model("NonNull::dangling", "core::ptr::dangling", "core::ptr::dangling_mut", "core::ptr::without_provenance")
def m_dangling(c):
    c.ret(mk("sym", "dangling", tystr(c.targs[0]) if c.targs else ""))


# ------------------------------------------------------------------ sequences
@model("slice::len", "Vec::len", "str::len", "String::len", "VecDeque::len", "LinkedList::len", "BinaryHeap::len",
       "BTreeSet::len", "HashSet::len", "BTreeMap::len", "HashMap::len", "OsStr::len", "array::len")
def m_len(c):
    c.ret(c.ip.ref_len(c.st, c.args[0]))


@model("ExactSizeIterator::len")
def m_elen(c):
    v = c.deref(0)
    if v.op == "agg" and v.a[0] == ("model", "iter"):
        return c.ret(sub(v.a[2][2], v.a[2][1]))
    if v.op == "agg" and v.a[0] == ("adt", "core::ops::range::Range"):
        return c.ret(sub(v.a[2][1], v.a[2][0]))
    if v.op == "agg" and isinstance(v.a[0], tuple) and v.a[0][1] == "models::MMap":
        w = v.a[2][0]
        if w.op == "agg" and w.a[0] == ("model", "iter"):
            return c.ret(sub(w.a[2][2], w.a[2][1]))
    c.ret(app("len", v))


@model("slice::is_empty", "Vec::is_empty", "str::is_empty", "String::is_empty", "VecDeque::is_empty", "HashMap::is_empty",
       "LinkedList::is_empty", "BTreeMap::is_empty", "BinaryHeap::is_empty", "HashSet::is_empty", "BTreeSet::is_empty")
def m_isempty(c):
    c.ret(compare("Eq", c.ip.ref_len(c.st, c.args[0]), num(0)))


@model(*[f"{k}::{m}" for k in COLL for m in ("new", "with_capacity", "with_capacity_and_hasher", "with_hasher", "with_capacity_in", "new_in")])
def m_new(c):
    c.ret(app("new", mk("str", c.short.split("::")[0])))


def mutate(c, f, ret=UNIT):
    root, proj = c.ip.target(c.args[0])
    old = c.ip.read(c.st, root, proj)
    c.ip.write(c.st, root, proj, f(old))
    c.ret(ret)


@model("Vec::push", "VecDeque::push_back", "LinkedList::push_back", "BinaryHeap::push", "VecDeque::push_front", "LinkedList::push_front",
       "BTreeSet::insert", "HashSet::insert", "BTreeMap::insert", "HashMap::insert", "Vec::push_mut")
def m_push(c):
    k = c.short.split("::")[0]
    x = c.args[1]
    res = UNIT
    if k in MAPS:
        x = tup(c.args[1], c.args[2])
    if c.short.endswith("insert"):
        res = mk("call", c.short, (), c.point())
        c.ip.purge(c.st, res)
    op = "add_front" if c.short.endswith("push_front") else "add"
    root, proj = c.ip.target(c.args[0])
    old = c.ip.read(c.st, root, proj)
    c.ip.write(c.st, root, proj, app(op, mk("str", k), old, x))
    c.ret(res, c.event("mutate", res=res))


@model("Vec::resize")
def m_resize(c):
    mutate(c, lambda o: app("resize", o, c.args[1]))


@model("Vec::truncate")
def m_truncate(c):
    n = c.args[1]

    def f(o):
        l = c.ip.length(o)
        if l is n:
            return o
        if l.op == "int" and n.op == "int" and n.a[0] >= l.a[0]:
            return o
        return app("truncate", o, n)
    mutate(c, f)


@model("Vec::clear", "HashMap::clear", "VecDeque::clear", "String::clear")
def m_clear(c):
    mutate(c, lambda o: app("new", mk("str", c.short.split("::")[0])))


@model("Extend::extend")
def m_extend(c):
    """A whole sequence appended at once."""
    b, i = c.targs[0], c.targs[-1]
    if b[0] != "adt" or adtn(b) != "Vec" or len(c.args) != 2:
        return False
    x = c.args[1]
    if i[0] == "ref" and (i[2][0] in ("slice", "array") or i[2][0] == "adt" and adtn(i[2]) == "Vec"):
        x = slice_value(c.ip, c.st, x)
    elif not (i[0] == "adt" and adtn(i) == "Vec" and i[2][0] == b[2][0] and b[2][0][0] == "int"):
        return False
    mutate(c, lambda o: app("concat", o, x))


@model("Vec::extend_from_slice")
def m_extslice(c):
    s = slice_value(c.ip, c.st, c.args[1])
    mutate(c, lambda o: app("concat", o, s))


@model("Vec::append")
def m_append(c):
    r2, p2 = c.ip.target(c.args[1])
    o2 = c.ip.read(c.st, r2, p2)
    c.ip.write(c.st, r2, p2, app("new", mk("str", "Vec")))
    mutate(c, lambda o: app("concat", o, o2))


def slice_value(ip, st, s):
    """The value a slice pointer denotes."""
    if s.op == "app" and s.a[0] == "rawimg":
        t, p, n, el = s.a[1]
        # bytes are read now: what they were must outlive the place they were read from
        return app("rawbytes", t, ip.deep(st, p), n)
    if s.op == "app" and s.a[0] == "rawsub":
        return app("sub", slice_value(ip, st, s.a[1][0]), s.a[1][1], s.a[1][2])
    r, q = ip.target(s)
    return ip.read(st, r, q)


@model("slice::to_vec", "ToOwned::to_owned", "slice::into_vec", "Vec::into_boxed_slice", "String::into_boxed_str", "alloc::slice::hack::into_vec",
       "String::into_bytes", "Vec::into_vec", "slice::concat1", "str::to_owned", "slice::to_owned")
def m_tovec(c):
    if c.argtys[0][0] == "ref":
        return c.ret(slice_value(c.ip, c.st, c.args[0]))
    v = c.args[0]
    if c.short == "slice::into_vec" and v.op == "ref":
        v = c.ip.read(c.st, v.a[0], v.a[1])
    if c.short == "String::into_bytes":
        v = app("view", mk("str", "bytes"), v)
    c.ret(v)


# operations whose result differs from their operand for some operand
CHANGING = ["OsStr::to_string_lossy", "OsString::to_string_lossy", "Path::to_string_lossy", "CStr::to_string_lossy", "String::from_utf8_lossy", "str::trim", "str::trim_end",
            "str::trim_start", "str::to_lowercase", "str::to_uppercase", "str::to_ascii_lowercase", "Duration::as_secs", "Duration::as_millis", "Duration::as_micros",
            "Duration::as_secs_f64", "Duration::as_secs_f32", "Duration::subsec_nanos", "Duration::subsec_millis", "Duration::subsec_micros",
            "str::to_ascii_uppercase", "str::trim_matches", "str::trim_ascii", "OsStr::to_ascii_lowercase", "slice::to_ascii_lowercase", "slice::trim_ascii",
            "Path::components", "Path::canonicalize", "Path::file_name", "Path::parent", "Path::file_stem", "Path::with_extension", "Path::join",
            "char::to_ascii_lowercase", "char::to_ascii_uppercase", "f32::trunc", "f64::trunc", "f32::round", "f64::round", "f32::abs", "f64::abs"]
# operations that rearrange or drop elements of the sequence they are applied to
SHUFFLING = ["slice::reverse", "slice::swap", "slice::sort", "slice::sort_unstable", "slice::sort_by", "slice::sort_by_key", "slice::sort_unstable_by",
             "slice::sort_unstable_by_key", "slice::rotate_left", "slice::rotate_right", "slice::fill", "Vec::dedup", "Vec::dedup_by", "Vec::dedup_by_key",
             "Vec::retain", "Vec::retain_mut", "VecDeque::retain", "VecDeque::rotate_left", "VecDeque::rotate_right", "String::retain", "HashMap::retain",
             "BTreeMap::retain", "HashSet::retain", "BTreeSet::retain", "str::make_ascii_lowercase", "str::make_ascii_uppercase"]


@model(*SHUFFLING)
def m_shuffling(c):
    if "ref" != c.argtys[0][0]:
        return False
    mutate(c, lambda o: app("changed", mk("str", c.short), o))


@model(*CHANGING)
def m_changing(c):
    v = c.args[0]
    if c.argtys[0][0] == "ref":
        v = slice_value(c.ip, c.st, v)
        if v.op == "app" and v.a[0] == "view":
            v = v.a[1][1]
    v = app("changed", mk("str", c.short), v)
    c.ret(app("addr_of", v) if c.short.startswith("str::trim") else v)


@model("Cow::into_owned", "Cow::to_mut")
def m_cowowned(c):
    v = c.args[0]
    if v.op == "app" and v.a[0] == "changed":
        return c.ret(v)
    return False


@model("Components::as_path")
def m_as_path(c):
    v = slice_value(c.ip, c.st, c.args[0])
    return c.ret(app("addr_of", v)) if v.op == "app" and v.a[0] == "changed" else False


@model("str::chars")
def m_chars(c):
    v = slice_value(c.ip, c.st, c.args[0])
    if v.op == "app" and v.a[0] == "view":
        v = v.a[1][1]
    c.ret(app("chars", v))


@model("Chars::count", "Iterator::count")
def m_chars_count(c):
    v = c.args[0]
    return c.ret(app("len", v)) if v.op == "app" and v.a[0] == "chars" else False


@model("VecDeque::as_slices")
def m_as_slices(c):
    ip = c.ip
    r, p = ip.target(c.args[0])
    n = ip.ref_len(c.st, c.args[0])
    m = app("ring_split", ip.read(c.st, r, p))
    c.ret(tup(ip.mkref(r, ip.addsub(p, num(0), m)), ip.mkref(r, ip.addsub(p, m, n))))


@model("alloc::vec::from_elem", "vec::from_elem")
def m_from_elem(c):
    c.ret(app("repeat", c.args[0], c.args[1]))


# byte views of string-like types and their inverses
VIEWS = {"String::as_bytes": "bytes", "str::as_bytes": "bytes", "CString::as_bytes": "bytes", "CStr::to_bytes": "bytes",
         "OsString::as_encoded_bytes": "bytes", "OsStr::as_encoded_bytes": "bytes", "OsStrExt::as_bytes": "bytes",
         "CString::as_bytes_with_nul": "bytes_nul", "CStr::to_bytes_with_nul": "bytes_nul"}


@model(*VIEWS)
def m_view(c):
    v = VIEWS[c.short]
    if v == "bytes" and c.short in ("OsString::as_encoded_bytes", "OsStr::as_encoded_bytes", "OsStrExt::as_bytes"):
        pass
    r, p = c.ip.target(c.args[0])
    c.ret(c.ip.mkref(r, p + (("view", v),)))


@model("String::from_utf8_unchecked", "CString::from_vec_unchecked", "OsString::from_encoded_bytes_unchecked",
       "OsStringExt::from_vec", "core::str::from_utf8_unchecked")
def m_unview(c):
    v = c.args[0]
    if v.op == "app" and v.a[0] == "view" and v.a[1][0].a[0] == "bytes":
        return c.ret(v.a[1][1])
    c.ret(app("of_view", mk("str", "bytes"), v))


@model("String::from_utf8", "core::str::from_utf8", "CString::new")
def m_unviewr(c):
    v = c.args[0]
    u = v.a[1][1] if v.op == "app" and v.a[0] == "view" and v.a[1][0].a[0] == "bytes" else app("of_view", mk("str", "bytes"), v)
    res = mk("call", c.short, (v,), None)
    vt = app("variant", res)
    c.fork([([(vt, 0)], ok(u)), ([(vt, 1)], err(mk("fld", res, 1, 0)))])


def range_of(c, rng, n):
    """(start, end) of a range value over a sequence of length n."""
    if rng.op == "agg" and isinstance(rng.a[0], tuple) and rng.a[0][0] == "adt":
        k = rng.a[0][1].split("::")[-1]
        f = rng.a[2]
        if k == "Range":
            return f[0], f[1]
        if k == "RangeFrom":
            return f[0], n
        if k == "RangeTo":
            return num(0), f[0]
        if k == "RangeFull":
            return num(0), n
        if k == "RangeInclusive":
            return f[0], add(f[1], num(1))
        if k == "RangeToInclusive":
            return num(0), add(f[0], num(1))
    return None


@model("RangeInclusive::new")
def m_rinc(c):
    c.ret(agg(("adt", "core::ops::range::RangeInclusive"), 0, (c.args[0], c.args[1], FALSE)))


@model("Index::index", "IndexMut::index_mut")
def m_index(c):
    ip = c.ip
    t = peel1(c.argtys[0])
    if adtn(t) in MAPS:
        return False
    if t[0] == "adt" and adtn(t) not in ("Vec", "VecDeque", "String"):
        return False
    a, idx = c.args
    if c.argtys[1][0] == "int":
        r, p = ip.target(a)
        return c.ret(ip.mkref(r, ip.addidx(p, idx)))
    n = ip.ref_len(c.st, a)
    se = range_of(c, idx, n)
    if se is None:
        return False
    if a.op == "app" and a.a[0] == "rawimg":
        if se[0] is num(0) and se[1] is n:
            return c.ret(a)
        return c.ret(app("rawsub", a, se[0], se[1]))
    r, p = ip.target(a)
    if se[0] is num(0) and se[1] is n:
        return c.ret(a)
    c.ret(ip.mkref(r, ip.addsub(p, se[0], se[1])))


@model("slice::get", "slice::get_mut", "Vec::get", "slice::get_unchecked", "slice::get_unchecked_mut")
def m_get(c):
    ip = c.ip
    a, idx = c.args
    r, p = ip.target(a)
    n = ip.ref_len(c.st, a)
    if c.argtys[1][0] != "int":
        se = range_of(c, idx, n)
        if se is None:
            return False
        v = ip.mkref(r, ip.addsub(p, se[0], se[1]))
        if "unchecked" in c.short:
            return c.ret(v)
        cond = compare("Le", se[1], n)
        return c.fork([([(cond, 1)], some(v)), ([(cond, 0)], NONE)])
    v = ip.mkref(r, ip.addidx(p, idx))
    if "unchecked" in c.short:
        return c.ret(v)
    cond = compare("Lt", idx, n)
    c.fork([([(cond, 1)], some(v)), ([(cond, 0)], NONE)])


@model("slice::first", "slice::last")
def m_first(c):
    ip = c.ip
    n = ip.ref_len(c.st, c.args[0])
    r, p = ip.target(c.args[0])
    cond = compare("Eq", n, num(0))
    i = num(0) if c.short.endswith("first") else sub(n, num(1))
    c.fork([([(cond, 1)], NONE), ([(cond, 0)], some(ip.mkref(r, ip.addidx(p, i))))])


@model("slice::split_at", "slice::split_at_mut")
def m_splitat(c):
    ip = c.ip
    n = ip.ref_len(c.st, c.args[0])
    r, p = ip.target(c.args[0])
    i = c.args[1]
    c.ret(tup(ip.mkref(r, ip.addsub(p, num(0), i)), ip.mkref(r, ip.addsub(p, i, n))))


@model("slice::copy_from_slice", "slice::clone_from_slice")
def m_copyslice(c):
    ip = c.ip
    v = slice_value(ip, c.st, c.args[1])
    d = c.args[0]
    if d.op == "app" and d.a[0] == "rawimg":
        t, p, n, el = d.a[1]
        r, q = ip.target(p)
        ip.write(c.st, r, q, app("from_bytes", t, v, n))
        return c.ret(UNIT, c.event())
    r, p = ip.target(d)
    ip.write(c.st, r, p, v)
    c.ret(UNIT, c.event())


@model("Vec::pop")
def m_pop(c):
    ip = c.ip
    r, p = ip.target(c.args[0])
    o = ip.read(c.st, r, p)
    n = ip.length(o)
    cond = compare("Eq", n, num(0))

    def f(s):
        ip.write(s, r, p, app("truncate", o, sub(n, num(1))))
        return some(ip.pread(o, ("i", sub(n, num(1)))))
    if o.op == "app" and o.a[0] == "add":
        ip.write(c.st, r, p, o.a[1][1])
        return c.ret(some(o.a[1][2]))
    c.fork([([(cond, 1)], NONE), ([(cond, 0)], f)])


@model("usize::min", "core::cmp::min", "Ord::min", "u32::min", "u64::min")
def m_min(c):
    c.ret(tmin(c.args[0], c.args[1]))


@model("Ord::max", "core::cmp::max")
def m_max(c):
    a, b = sorted(c.args, key=show)
    c.ret(app("max", a, b))


@model("usize::wrapping_add", "u32::wrapping_add", "u64::wrapping_add", "isize::wrapping_add")
def m_wadd(c):
    c.ret(add(c.args[0], c.args[1]))


@model("usize::wrapping_sub", "u32::wrapping_sub", "u64::wrapping_sub", "isize::wrapping_sub")
def m_wsub(c):
    c.ret(sub(c.args[0], c.args[1]))


@model("usize::saturating_sub")
def m_satsub(c):
    a, b = c.args
    d = sub(a, b)
    if d.op == "int":
        return c.ret(num(max(0, d.a[0])))
    cond = compare("Lt", a, b)
    c.fork([([(cond, 1)], num(0)), ([(cond, 0)], d)])


@model("usize::checked_sub", "usize::checked_add")
def m_chk(c):
    a, b = c.args
    if c.short.endswith("add"):
        return c.ret(some(add(a, b)))
    cond = compare("Lt", a, b)
    c.fork([([(cond, 1)], NONE), ([(cond, 0)], some(sub(a, b)))])


@model("usize::saturating_add")
def m_satadd(c):
    c.ret(add(c.args[0], c.args[1]))


@model("NonZero::new")
def m_nznew(c):
    x = c.args[0]
    z = compare("Eq", x, num(0))
    c.fork([([(z, 1)], NONE), ([(z, 0)], some(x))])


@model("NonZero::get", "NonZero::new_unchecked")
def m_nzget(c):
    x = c.args[0]
    if x.op in ("fld", "call", "sym", "app"):
        c.st.assume(x, 0, neq=True)
    c.ret(x)


# ------------------------------------------------------------------ iterators
ITER = ("model", "iter")


def mkiter(src, start, end, mode):
    return agg(ITER, 0, (src, start, end, mk("str", mode)))


def iter_item(ip, st, it, i):
    src, s, e, mode = it.a[2]
    m = mode.a[0]
    if m == "val":
        return ip.pread(src, ("i", i))
    if m == "ref":
        r, p = ip.target(src)
        return ip.mkref(r, ip.addidx(p, i))
    if m == "mapref":
        r, p = ip.target(src)
        q = ip.addidx(p, i)
        return tup(ip.mkref(r, q + (("f", 0, None),)), ip.mkref(r, q + (("f", 1, None),)))
    if m in ("keyref", "valref"):
        r, p = ip.target(src)
        q = ip.addidx(p, i)
        return ip.mkref(r, q + (("f", 0 if m == "keyref" else 1, None),))
    return app("item", src, i)


@model("slice::iter", "slice::iter_mut", *[f"{k}::{m}" for k in COLL for m in ("iter", "iter_mut", "keys", "values", "values_mut")])
def m_iter(c):
    k, m = c.short.split("::")
    n = c.ip.ref_len(c.st, c.args[0])
    mode = "ref"
    if k in MAPS:
        mode = "mapref" if m.startswith("iter") else "keyref" if m == "keys" else "valref"
    c.ret(mkiter(c.args[0], num(0), n, mode))


@model("IntoIterator::into_iter")
def m_intoiter(c):
    t = c.targs[0] if c.targs else c.argtys[0]
    v = c.args[0]
    ip = c.ip
    if v.op == "agg" and (v.a[0] == ITER or isinstance(v.a[0], tuple) and v.a[0][1].startswith("models::M")):
        return c.ret(v)
    if t[0] == "ref":
        u = t[2]
        if u[0] in ("slice", "array") or adtn(u) in COLL or (adtn(u) == "Box" and u[2][0][0] == "slice"):
            src = v
            n = ip.ref_len(c.st, src)
            return c.ret(mkiter(src, num(0), n, "mapref" if adtn(u) in MAPS else "ref"))
        if u[0] == "ref" or adtn(u) is not None and u[1].startswith("core::"):
            return c.ret(v)
    if adtn(t) in COLL or t[0] == "array":
        return c.ret(mkiter(v, num(0), ip.length(v) if t[0] != "array" else kconst(t[2]), "val"))
    if adtn(t) == "Option":
        cond = app("variant", v)
        if v.op == "agg":
            arr = agg("array", 0, v.a[2] if v.a[1] == 1 else ())
            return c.ret(mkiter(arr, num(0), num(len(arr.a[2])), "val"))
        return False
    # iterators are their own IntoIterator
    im = local_impl(ip, "IntoIterator", (t,), "into_iter")
    if im:
        return ip.inline(c, im[0], im[1], c.args)
    return c.ret(v)


@model("Vec::into_iter")
def m_vecinto(c):
    c.ret(mkiter(c.args[0], num(0), c.ip.length(c.args[0]), "val"))


@model("Vec::drain", "VecDeque::drain")
def m_drain(c):
    ip = c.ip
    r, p = ip.target(c.args[0])
    o = ip.read(c.st, r, p)
    n = ip.length(o)
    se = range_of(c, c.args[1], n)
    if se is None or se[0] is not num(0) or se[1] is not n:
        return False
    ip.write(c.st, r, p, app("new", mk("str", "Vec")))
    c.ret(mkiter(o, num(0), n, "val"))


def iter_at(c):
    ip = c.ip
    r, p = ip.target(c.args[0])
    v = ip.read(c.st, r, p)
    while v.op == "ref":      # &mut I as an iterator
        r, p = v.a[0], v.a[1]
        v = ip.read(c.st, r, p)
    return r, p, v


@model("Iterator::next", "DoubleEndedIterator::next_back")
def m_next(c):
    ip = c.ip
    r, p, v = iter_at(c)
    back = c.short.endswith("next_back")
    if v.op == "agg" and v.a[0] == ITER:
        src, s, e, mode = v.a[2]
        cond = compare("Lt", s, e)

        def f(st):
            i = sub(e, num(1)) if back else s
            nv = agg(ITER, 0, (src, s, i, mode) if back else (src, add(s, num(1)), e, mode))
            ip.write(st, r, p, nv)
            return some(iter_item(ip, st, v, i))
        return c.fork([([(cond, 1)], f), ([(cond, 0)], NONE)])
    if v.op == "agg" and isinstance(v.a[0], tuple) and v.a[0][0] == "adt" and v.a[0][1].endswith("::Range"):
        s, e = v.a[2]
        cond = compare("Lt", s, e)

        def f(st):
            i = sub(e, num(1)) if back else s
            ip.write(st, r, p, agg(v.a[0], 0, (s, i) if back else (add(s, num(1)), e)))
            return some(i)
        return c.fork([([(cond, 1)], f), ([(cond, 0)], NONE)])
    if v.op == "agg" and isinstance(v.a[0], tuple) and v.a[0][0] == "adt" and v.a[0][1].endswith("::RangeInclusive") and not back:
        s, e = v.a[2][0], v.a[2][1]
        cond = compare("Le", s, e)

        def f(st):
            ip.write(st, r, p, agg(v.a[0], 0, (add(s, num(1)), e) + v.a[2][2:]))
            return some(s)
        return c.fork([([(cond, 1)], f), ([(cond, 0)], NONE)])
    return False


def plainiter(v):
    """The sequence iterator under adaptors that neither drop nor change elements."""
    while v.op == "agg" and isinstance(v.a[0], tuple) and v.a[0][1] in ("models::MCloned", "models::MEnumerate"):
        v = v.a[2][0]
    return v if v.op == "agg" and v.a[0] == ITER else None


def withiter(v, new, n):
    if v.a[0] == ITER:
        return new
    inner = withiter(v.a[2][0], new, n)
    if v.a[0][1] == "models::MEnumerate":
        return agg(v.a[0], v.a[1], (inner, add(v.a[2][1], n)) + v.a[2][2:])
    return agg(v.a[0], v.a[1], (inner,) + v.a[2][1:])


@model("Iterator::skip", "Iterator::take")
def m_skip(c):
    v, n = c.args
    it = plainiter(v)
    if it is None:
        return False
    src, s, e, mode = it.a[2]
    cond = compare("Lt", sub(e, s), n)
    if c.short.endswith("skip"):
        return c.fork([([(cond, 1)], withiter(v, agg(ITER, 0, (src, e, e, mode)), sub(e, s))), ([(cond, 0)], withiter(v, agg(ITER, 0, (src, add(s, n), e, mode)), n))])
    return c.fork([([(cond, 1)], v), ([(cond, 0)], withiter(v, agg(ITER, 0, (src, s, add(s, n), mode)), num(0)))])


@model("Iterator::size_hint")
def m_sizehint(c):
    c.ret(mk("call", "size_hint", (), c.point()))


# ------------------------------------------------------------------ callables
@model("FnOnce::call_once", "FnMut::call_mut", "Fn::call")
def m_fncall(c):
    f, packed = c.args
    pt = c.argtys[1]
    if packed.op == "agg":
        args = list(packed.a[2])
        tys = list(pt[1]) if pt[0] == "tuple" else [("other", "?")] * len(args)
    elif pt[0] == "tuple":
        args = [c.ip.pread(packed, ("f", i, None)) for i in range(len(pt[1]))]
        tys = list(pt[1])
    else:
        return False
    # a local type that implements the callable trait itself (nightly feature)
    c.ip.call_value(c, f, args, tys)


# ------------------------------------------------------------------ cells, locks, reference counts
@model("Cell::new", "RefCell::new", "UnsafeCell::new")
def m_cellnew(c):
    c.ret(agg(("adt", "core::cell::Cell"), 0, (c.args[0],)))


@model("Cell::get")
def m_cellget(c):
    r, p = c.ip.target(c.args[0])
    c.ret(c.ip.read(c.st, r, p + (("f", 0, None),)))


@model("Cell::set")
def m_cellset(c):
    r, p = c.ip.target(c.args[0])
    c.ip.write(c.st, r, p + (("f", 0, None),), c.args[1])
    c.ret(UNIT)


@model("Cell::replace", "Cell::take")
def m_cellreplace(c):
    r, p = c.ip.target(c.args[0])
    old = c.ip.read(c.st, r, p + (("f", 0, None),))
    c.ip.write(c.st, r, p + (("f", 0, None),), c.args[1] if len(c.args) > 1 else app("default", mk("ty", c.targs[0])))
    c.ret(old)


@model("Mutex::new", "RwLock::new")
def m_mutexnew(c):
    v = mk("call", c.short, (c.args[0],), c.point())
    c.ret(v, c.event(res=v))


@model("Mutex::lock")
def m_lock(c):
    res = mk("call", "Mutex::lock", (c.args[0],), c.point())
    c.ip.purge(c.st, res)
    guard = agg(("model", "guard"), 0, (c.args[0],))
    vt = app("variant", res)
    e = c.event("lock", res=res)
    # the data may have been changed by another holder
    data = ("obj", app("mdata", c.args[0]))
    s1 = c.st.copy()
    s1.mem.pop(data, None)
    for t in [t for t in s1.facts if mk("deref", data[1]) in subterms(t)]:
        del s1.facts[t]
    s2 = s1.copy()
    s1.assume(vt, 0)
    s2.assume(vt, 1)
    c.finish(s1, ok(guard), [e], facts={vt: 0})
    c.finish(s2, err(mk("fld", res, 1, 0)), [c.event("lockfail", res=res)], facts={vt: 1})


@model("PoisonError::into_inner")
def m_poison(c):
    v = c.args[0]
    if v.op == "fld" and v.a[0].op == "call" and v.a[0].a[0] == "Mutex::lock":
        return c.ret(agg(("model", "guard"), 0, (v.a[0].a[1][0],)))
    return False


@model("Rc::new", "Arc::new")
def m_rcnew(c):
    v = mk("call", c.short, (c.args[0],), c.point())
    c.st.mem[("obj", v)] = c.args[0]
    c.ret(v, c.event(res=v))


@model("Rc::as_ptr", "Arc::as_ptr")
def m_rcptr(c):
    c.ret(app("rcptr", c.deref(0)))


@model("Rc::ptr_eq", "Arc::ptr_eq")
def m_rceq(c):
    r1, p1 = c.ip.target(c.args[1])
    c.ret(compare("Eq", app("rcptr", c.deref(0)), app("rcptr", c.ip.read(c.st, r1, p1))))


@model("Clone::clone")
def m_clone(c):
    ip = c.ip
    t = c.targs[0] if c.targs else peel1(c.argtys[0])
    v = c.deref(0)
    if t[0] in ("closure",):
        return c.ret(v)
    if t[0] == "array" and t[1][0] == "adt" and (ip.db.adt(t[1][1]) or {}).get("local"):
        return clone_array(c, t, v)
    if t[0] == "adt" and (ip.db.adt(t[1]) or {}).get("local"):
        im = local_impl(ip, "Clone", (t,), "clone")
        if im:
            return ip.inline(c, im[0], im[1], c.args)
    if t[0] == "param" or t[0] == "alias":
        return c.ret(app("clone", v))
    c.ret(v, c.event("clone", res=v) if t[0] == "adt" else None)


def clone_array(c, t, v):
    """Cloning an array copies it bitwise exactly when the element type is Copy (the standard library
    specialises); otherwise it calls the element's clone."""
    ip = c.ip
    el = t[1]
    key = copy_trait(ip)
    r = ip.implements(key, (el,))

    def noncopy(st):
        im = local_impl(ip, "Clone", (el,), "clone")
        if im is None or v.op != "agg":
            raise_undecided("clone of array")
        rt, pj = ip.target(c.args[0])
        c2 = type(c)(ip, c.n, st, c.ctx, c.bb, c.t, c.args, c.argtys)
        c2.short, c2.key, c2.targs = c.short, c.key, c.targs
        vs = v.a[2]
        if len(vs) == 1:
            return ip.inline(c2, im[0], im[1], [ip.mkref(rt, pj + (("i", num(0)),))], post="arr1")
        c2.ret(v)
    if r is True:
        return c.ret(v)
    if r is False:
        return noncopy(c.st)
    # fork over the undetermined atoms
    st = c.st
    atoms = []
    for tr, a in r:
        at = app("implements", mk("str", tr.split("::")[-1]), *[mk("ty", x) for x in a])
        if at not in atoms:
            atoms.append(at)
    pos = st.copy()
    okp = True
    for at in atoms:
        neg_ = pos.copy()
        if neg_.assume(at, 0):
            noncopy(neg_)
        if not pos.assume(at, 1):
            okp = False
            break
    if okp:
        c.finish(pos, v, facts=ip.diff(st, pos))


def copy_trait(ip):
    for k in ip.db.impls_by_trait:
        if k.split("::")[-1] == "Copy":
            return k
    return "core::marker::Copy"


def raise_undecided(m):
    from interp import Undecided
    raise Undecided(m)


# ------------------------------------------------------------------ comparisons and defaults
def through(c, i):
    v, t = c.args[i], c.argtys[i]
    while t[0] in ("ref",):
        r, p = c.ip.target(v)
        v = slice_value(c.ip, c.st, v) if t[2][0] in ("slice", "str") else c.ip.read(c.st, r, p)
        t = t[2]
    return v, t


@model("PartialEq::eq", "PartialEq::ne")
def m_eq(c):
    ip = c.ip
    a, ta = through(c, 0)
    b, tb = through(c, 1)
    im = local_impl(ip, "PartialEq", (ta, tb), "eq")
    if im and ta[0] == "adt" and not (ip.db.adt(ta[1]) or {}).get("kind") == "enum":
        if c.short.endswith("eq"):
            return ip.inline(c, im[0], im[1], c.args)
    r = eq(ip, a, ta, b, tb)
    if r is None:
        r = compare("Eq", a, b)
    if c.short.endswith("ne"):
        r = neg(r)
    c.ret(r)


def errno_const(v):
    if v.op == "sym" and v.a[0] == "const" and "Errno" in str(v.a[1]):
        return str(v.a[1]).split("::")[-1]
    return None


def eq(ip, a, ta, b, tb):
    if adtn(ta) == "Errno" or errno_const(a) or errno_const(b):
        for x, y in ((a, b), (b, a)):
            n = errno_const(y)
            if n:
                if n in ERRNO:
                    return is_kind(ip, x, ERRNO[n])
                return app("errno_is", errval(x), mk("str", n))
    if adtn(ta) == "Option":
        for x, y in ((a, b), (b, a)):
            if y.op == "agg":
                vx = ip.variant(x)
                if y.a[1] == 0:
                    return compare("Eq", vx, num(0))
                inner = eq(ip, ip.pread(x, ("f", 0, 1)), ("?",), y.a[2][0], ("?",))
                if inner is None:
                    inner = compare("Eq", ip.pread(x, ("f", 0, 1)), y.a[2][0])
                if x.op == "agg":
                    return inner if x.a[1] == 1 else FALSE
                return app("and", compare("Eq", vx, num(1)), inner)
    if ta[0] == "tuple" and tb[0] == "tuple" and len(ta[1]) == len(tb[1]) and all(x[0] in ("int", "bool", "char", "tuple") for x in ta[1]):
        r = TRUE
        for i, (x, y) in enumerate(zip(ta[1], tb[1])):
            p, q = ip.pread(a, ("f", i, None)), ip.pread(b, ("f", i, None))
            z = eq(ip, p, x, q, y)
            r = binop("BitAnd", r, compare("Eq", p, q) if z is None else z)
        return r
    if ta[0] == "adt":
        ad = ip.db.adt(ta[1])
        if ad and ad["kind"] == "enum" and all(not v["fields"] for v in ad["variants"]):
            va, vb = ip.variant(a), ip.variant(b)
            return compare("Eq", va, vb)
    return None


@model("Default::default")
def m_default(c):
    t = c.targs[0]
    im = local_impl(c.ip, "Default", (t,), "default")
    if im:
        return c.ip.inline(c, im[0], im[1], [])
    c.ret(default_value(t))


def default_value(t):
    if adtn(t) in COLL:
        return coll_new(t)
    if t[0] == "int":
        return num(0)
    if t[0] == "bool":
        return FALSE
    if adtn(t) == "Option":
        return NONE
    if t[0] == "tuple":
        return agg("tuple", 0, tuple(default_value(x) for x in t[1]))
    return app("default", mk("ty", t))


# ------------------------------------------------------------------ futures
@model("IntoFuture::into_future")
def m_intofuture(c):
    c.ret(c.args[0])


@model("core::future::poll_fn", "core::future::poll_fn::poll_fn")
def m_pollfn(c):
    c.ret(agg(("adt", "models::MPollFn"), 0, (c.args[0],)))


def coroutine_at(ip, st, v):
    """Follow pins, boxes and references to a coroutine value: (root, proj, value) or None."""
    for _ in range(8):
        if v.op == "agg" and isinstance(v.a[0], tuple) and v.a[0][0] == "adt" and v.a[0][1].split("::")[-1] in ("Pin", "AssertUnwindSafe"):
            v = v.a[2][0]
            continue
        if v.op == "ref":
            x = ip.read(st, v.a[0], v.a[1])
            if x.op == "agg" and isinstance(x.a[0], tuple) and x.a[0][0] == "coroutine":
                return v.a[0], v.a[1], x
            if x.op == "ref" or (x.op == "agg" and isinstance(x.a[0], tuple) and x.a[0][0] == "adt" and x.a[0][1].split("::")[-1] == "Pin"):
                v = x
                continue
        return None
    return None


@model("Future::poll")
def m_poll(c):
    ip = c.ip
    f = coroutine_at(ip, c.st, c.args[0])
    if f is None:
        v = c.args[0]
        for _ in range(8):
            if v.op == "agg" and isinstance(v.a[0], tuple) and v.a[0][0] == "adt" and v.a[0][1].split("::")[-1] in ("Pin", "AssertUnwindSafe"):
                v = v.a[2][0]
            elif v.op == "ref":
                v = ip.read(c.st, v.a[0], v.a[1])
            else:
                break
        if v in ip.async_calls:
            return c.ret(agg(("adt", "core::task::poll::Poll"), 0, (app("output", v),)))
        return False
    r, p, v = f
    key = v.a[0][1]
    body = ip.db.bodies.get(key)
    if body is None:
        return False
    ip.write(c.st, r, p, mk("done"))
    env = ip.closure_env(key, v.a[0][2])
    ip.inline(c, key, env, [v, c.args[1]], post="ready")


@model("async_io::driver::block_on", "async_io::block_on", "futures_lite::future::block_on", "Runtime::block_on")
def m_blockon(c):
    ip = c.ip
    v = c.args[-1]
    e = c.event()
    if not (v.op == "agg" and isinstance(v.a[0], tuple) and v.a[0][0] == "coroutine"):
        f = coroutine_at(ip, c.st, v)
        if f is None:
            c.short = "block_on"
            return False
        ip.write(c.st, f[0], f[1], mk("done"))
        v = f[2]
    key = v.a[0][1]
    if key not in ip.db.bodies:
        return False
    ip.inline(c, key, ip.closure_env(key, v.a[0][2]), [v, mk("sym", "cx")], events=[e])


@model("UnixStream::async_io", "TcpStream::async_io", "AsyncFd::async_io")
def m_asyncio(c):
    v = agg(("adt", "models::MIo"), 0, (tup(c.args[0], c.args[1]), c.args[2]))
    c.ret(v, c.event("io", res=v))


@model("Async::read_with", "Async::write_with", "Async::read_with_mut", "Async::write_with_mut")
def m_withio(c):
    io = app("get_ref", c.args[0])
    v = agg(("adt", "models::MIoWith"), 0, (io, c.args[1]))
    c.ret(v, c.event("io", res=v))


@model("UnixStream::try_io")
def m_tryio(c):
    c.pre = [c.event("tryio")]
    c.ip.call_value(c, c.args[2], [], [])


@model("Async::get_ref")
def m_getref(c):
    c.ret(app("get_ref", c.args[0]))


# ------------------------------------------------------------------ hash map entries
@model("HashMap::entry", "BTreeMap::entry")
def m_entry(c):
    ip = c.ip
    m = c.args[0]
    v = slice_or(ip, c.st, m)
    has = app("contains", v, c.args[1])
    ek = ("adt", entry_key(ip, c.short))
    occ = agg(ek, 0, (agg(("model", "occupied"), 0, (m, c.args[1])),))
    vac = agg(ek, 1, (agg(("model", "vacant"), 0, (m, c.args[1])),))
    if ip.db.adt(ek[1]) and ip.db.adt(ek[1])["variants"][0]["name"] == "Vacant":
        occ, vac = agg(ek, 1, occ.a[2]), agg(ek, 0, vac.a[2])
    c.fork([([(has, 1)], occ), ([(has, 0)], vac)])


def entry_key(ip, short):
    kind = "hash" if short.startswith("Hash") else "btree"
    for k in ip.db.adts:
        if k.endswith("::Entry") and kind in k:
            return k
    return "std::collections::hash::map::Entry"


def slice_or(ip, st, p):
    r, q = ip.target(p)
    return ip.read(st, r, q)


def entry_val(c):
    v = c.args[0]
    if v.op == "ref" and c.argtys[0][0] == "ref":
        v = c.ip.read(c.st, v.a[0], v.a[1])
    return v


@model("OccupiedEntry::get", "OccupiedEntry::into_mut", "OccupiedEntry::get_mut")
def m_occget(c):
    v = entry_val(c)
    if v.op != "agg":
        return False
    m, k = v.a[2]
    c.ret(app("addr_of", app("mapget", slice_or(c.ip, c.st, m), k)))


@model("VacantEntry::insert", "VacantEntry::insert_entry")
def m_vacins(c):
    v = entry_val(c)
    if v.op != "agg":
        return False
    m, k = v.a[2]
    r, q = c.ip.target(m)
    old = c.ip.read(c.st, r, q)
    c.ip.write(c.st, r, q, app("add", mk("str", "HashMap"), old, tup(k, c.args[1])))
    c.ret(app("addr_of", c.args[1]), c.event("mutate"))


@model("HashMap::get", "BTreeMap::get")
def m_mapget(c):
    ip = c.ip
    v = slice_or(ip, c.st, c.args[0])
    k = slice_or(ip, c.st, c.args[1])
    has = app("contains", v, k)
    c.fork([([(has, 1)], some(app("addr_of", app("mapget", v, k)))), ([(has, 0)], NONE)])


@model("HashMap::contains_key")
def m_mapcontains(c):
    ip = c.ip
    c.ret(app("contains", slice_or(ip, c.st, c.args[0]), slice_or(ip, c.st, c.args[1])))


@model("core::panicking::panic_nounwind")
def m_never(c):
    return False


# ------------------------------------------------------------------ descriptors
def fdof(v):
    """The descriptor a handle value denotes."""
    while True:
        if v.op == "app" and v.a[0] == "conv":
            v = v.a[1][1]
        elif v.op == "app" and v.a[0] == "fdof":
            return v
        elif v.op == "app" and v.a[0] == "owned":
            return v.a[1][0]
        elif v.op == "app" and v.a[0] == "get_ref":
            v = v.a[1][0]
        else:
            break
    return app("fdof", v)


def is_fd(v):
    return v.op == "app" and v.a[0] == "fdof"


@model("AsFd::as_fd", "AsRawFd::as_raw_fd", "AsRawHandle::as_raw_handle", "AsHandle::as_handle")
def m_asfd(c):
    t = c.argtys[0]
    v = c.args[0]
    while t[0] == "ref":
        v = c.ip.read(c.st, *c.ip.target(v))
        t = t[2]
    if adtn(t) == "BorrowedFd" or t[0] == "int" or is_fd(v):
        return c.ret(v)
    if t[0] == "adt" and t[1].split("::")[0] == "crossmist":
        return False   # its own implementation is analysed
    if adtn(t) in ("Arc", "Rc", "Box"):
        v = c.ip.read(c.st, *c.ip.target(v))
    c.ret(fdof(v))


@model("BorrowedFd::borrow_raw")
def m_borrowraw(c):
    c.ret(c.args[0])


@model("IntoRawFd::into_raw_fd")
def m_intoraw(c):
    v = c.args[0]
    r = fdof(v)
    c.ret(r, c.event("fd_release", res=r))


@model("FromRawFd::from_raw_fd")
def m_fromraw(c):
    v = app("owned", c.args[0])
    c.ret(v, c.event("fd_adopt", res=v))


def fallible_conv(c):
    res = mk("call", c.short, (c.args[0],), c.point())
    c.ip.purge(c.st, res)
    rt = c.rtype()
    t = rt[2][0] if rt and rt[0] == "adt" and rt[2] else ("other", "?")
    vt = app("variant", res)
    e = c.event(res=res)
    st = c.st
    s1, s2 = st.copy(), st.copy()
    s1.assume(vt, 0)
    s2.assume(vt, 1)
    c.finish(s1, ok(app("conv", mk("ty", t), c.args[0])), [e], facts={vt: 0})
    c.finish(s2, err(mk("fld", res, 1, 0)), [e, drop_event(c, s2, c.args[0], c.argtys[0])], facts={vt: 1})


def drop_event(c, st, v, t):
    from interp import Ev
    from mirdb import tyname
    return Ev("drop", tyname(t), args=(v,), deep=(c.ip.deep(st, v, 3),), ty=t, line=c.line, file=c.ctx.body.file, ctx=c.ctx, bb=c.bb, where=c.ctx.key)


@model("Async::new", "Async::new_nonblocking", "UnixStream::from_std", "UnixStream::into_std", "Async::into_inner")
def m_fallconv(c):
    fallible_conv(c)


# ------------------------------------------------------------------ scatter/gather and ancillary buffers
@model("IoSlice::new", "IoSliceMut::new")
def m_ioslice(c):
    c.ret(agg(("adt", "std::io::IoSlice"), 0, (c.args[0],)))


CMSG = ("model", "cmsgbuf")


@model("SendAncillaryBuffer::new", "RecvAncillaryBuffer::new", "SendAncillaryBuffer::from", "RecvAncillaryBuffer::from")
def m_cmsgnew(c):
    r, p = c.ip.target(c.args[0])
    c.ret(agg(CMSG, 0, (c.ip.ref_len(c.st, c.args[0]), agg("array", 0, ()))))


@model("SendAncillaryBuffer::clear")
def m_cmsgclear(c):
    r, p = c.ip.target(c.args[0])
    v = c.ip.read(c.st, r, p)
    if not (v.op == "agg" and v.a[0] == CMSG):
        return False
    c.ip.write(c.st, r, p, agg(CMSG, 0, (v.a[2][0], agg("array", 0, ()))))
    c.ret(UNIT)


@model("SendAncillaryBuffer::push")
def m_cmsgpush(c):
    r, p = c.ip.target(c.args[0])
    v = c.ip.read(c.st, r, p)
    if not (v.op == "agg" and v.a[0] == CMSG):
        return False
    cond = mk("call", "cmsg_fits", (v.a[2][0], c.ip.deep(c.st, v.a[2][1]), c.ip.deep(c.st, c.args[1])), None)
    items = v.a[2][1]
    new = agg("array", 0, items.a[2] + (c.args[1],)) if items.op == "agg" else app("add", mk("str", "Vec"), items, c.args[1])

    def yes(st):
        c.ip.write(st, r, p, agg(CMSG, 0, (v.a[2][0], new)))
        return TRUE
    c.fork([([(cond, 1)], yes), ([(cond, 0)], FALSE)])


def recvmsg_effect(c, res):
    """recvmsg writes the buffers of the vector and the control buffer."""
    ip = c.ip
    v = slice_or(ip, c.st, c.args[1])
    if v.op == "agg":
        for i, s in enumerate(v.a[2]):
            if s.op == "agg" and s.a[0] == ("adt", "std::io::IoSlice"):
                d = s.a[2][0]
                h = mk("hav", res, ("iov", i))
                b = d
                while b.op == "app" and b.a[0] in ("rawsub", "rawimg"):
                    b = b.a[1][0] if b.a[0] == "rawsub" else b.a[1][1]
                root, proj = ip.target(b)
                if b is d:
                    ip.write(c.st, root, proj, h)
                else:
                    old = ip.read(c.st, root, proj)
                    ip.write(c.st, root, proj, app("filled", old, d, h))
    root, proj = ip.target(c.args[2])
    ip.write(c.st, root, proj, mk("hav", res, 2))


@model("rustix::net::send_recv::msg::recvmsg", "rustix::net::recvmsg", "msg::recvmsg")
def m_recvmsg(c):
    res = mk("call", "recvmsg", (), c.point())
    c.ip.purge(c.st, res)
    c.short = "recvmsg"
    e = c.event(res=res)
    recvmsg_effect(c, res)
    c.finish(c.st, res, [e])


@model("rustix::net::send_recv::msg::sendmsg", "rustix::net::sendmsg", "msg::sendmsg")
def m_sendmsg(c):
    c.short = "sendmsg"
    res = mk("call", "sendmsg", (), c.point())
    c.ip.purge(c.st, res)
    c.finish(c.st, res, [c.event(res=res)])
