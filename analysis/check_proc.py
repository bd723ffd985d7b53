"""Child processes: starting (C13, C14, C15, C18, C19), joining (C17), killing (C16), and errors of the operating system in
every public fallible operation (C12). Decided on the inlined event graphs of the public operations; the channel operations
they use (checked by check_wire) stay opaque."""
from common import *
from paths import positions, typestate
from scen import ev as value, possible, RES, SOME, NONE
from check_wire import unref, facts_of, outcome, is_variant, length
from lin import truth

CLOEXEC_SOCK = 0x80000
SIGCHLD = 17
CLONE_VM, CLONE_VFORK, CLONE_FILES, CLONE_SIGHAND, CLONE_THREAD = 0x100, 0x4000, 0x400, 0x800, 0x10000
KILL = 9


# ------------------------------------------------------------------ plumbing
def ops(A):
    o = getattr(A, "_ops", None)
    if o is None:
        o = {A.method("asynchronous::" + a, m) for a, m in (("Sender", "send"), ("Receiver", "recv"), ("Duplex", "send"), ("Duplex", "recv"))}
        o.discard(None)
        A._ops = o
        A._opaque = lambda short, key, targs: key in o
    return o


def graph(A, rep, key, env=None, label=None):
    ops(A)
    try:
        g = A.run(key, env=env or {}, opaque=A._opaque)
    except Undecided as e:
        rep.undecided.append(f"{label or key}: {e}")
        return None
    if g.incomplete:
        rep.undecided.append(f"{label or key}: {g.incomplete[:3]}")
    return g


def public(A, name, *modules):
    """Public functions by name in the modules of the crate root."""
    out = []
    for k, d in A.db.defs.items():
        if d.get("local") and d.get("name") == name and k in A.db.bodies and d.get("vis") == "Public" and d.get("container") is None:
            if not modules or k.split("::")[-2] in modules:
                out.append(k)
    return sorted(out)


def methods(A, name, adts):
    """[(label, key, env)] of a public inherent method over the channel back ends."""
    out = []
    for a in adts:
        k = A.method(a, name)
        if k is None:
            continue
        if any(g[0] == "Stream" for g in A.db.defs[k].get("generics") or []):
            for n, ty, b in A.streams():
                out.append((f"{a}<{n}>::{name}", k, A.env_for(k, Stream=ty)))
        else:
            out.append((f"{a}::{name}", k, {}))
    return out


def called(e, *names):
    """Is this event a call of one of these functions (last segments of the name)?"""
    if e.kind != "call":
        return False
    s = str(e.name)
    return any(s == n or s.endswith("::" + n) for n in names)


def has(t, x):
    return x in subterms(t)


def ends(g):
    return [p for p in positions(g, lambda e: e.kind in ("ret", "panic", "diverge"))]


def isret(e):
    return e.kind == "ret"


def fldname(t):
    return show(t)[:100]


def opresult(e):
    """The Result an operation event yields (asynchronous operations yield it when awaited)."""
    return e.res


def results_of(A, g, e):
    """Terms under which the outcome of this call may be tested."""
    out = [e.res]
    o = app("output", e.res)
    out.append(o)
    return out


def output_term(g, res):
    """output(res) as it occurs in the graph."""
    for p in positions(g, lambda e: True):
        for t in facts_of(p):
            for x in subterms(t):
                if x.op == "app" and x.a[0] == "output" and res in x.a[1]:
                    return x
    return app("output", res)


# ------------------------------------------------------------------ C17
def join_roots(A, rep):
    r = methods(A, "join", ["blocking::Child", "asynchronous::Child"])
    rep.anchor("join operations", r, 1 + len(A.streams()))
    return r


def waits(g):
    return positions(g, lambda e: called(e, "waitpid", "wait4", "waitid", "wait"))


def check_join(A, rep):
    for label, k, env in join_roots(A, rep):
        g = graph(A, rep, k, env, label)
        if g is None:
            continue
        W = waits(g)
        if not rep.oblige("J0-waits", bool(W), label, None, "the process is never waited for: it stays a zombie"):
            continue
        wres = {p.ev.res for p in W}
        pidfields = pid_fields(A)
        for p in W:
            a = p.ev.deep
            if not called(p.ev, "waitpid"):
                rep.oblige("J1-exact-child", None, label, p.ev, "unrecognised way of waiting")
                continue
            opt = a[0]
            ok = None
            if is_variant(opt, "Option"):
                if opt.a[1] == 0:
                    ok = False
                else:
                    ok = self_field(opt.a[2][0])
            rep.oblige("J1-exact-child", ok, label, p.ev, f"waits for {show(opt)[:120]} instead of exactly the process this handle stands for")
            fl = flagval(a[1])
            rep.oblige("J1-blocking-wait", None if fl is None else fl & (1 | 2 | 8) == 0, label, p.ev, "does not wait for the process to end (WNOHANG)" if fl is not None and fl & 1 else
                       "the wait also ends when the process is merely stopped or continued: it is then reported as ended and never reaped")
        # order and inevitability
        bad = {}

        def trans(s, pos):
            e = pos.ev
            recvd, waited = s
            if e.kind == "call" and e.key in ops(A) and "recv" in str(e.name):
                return (True, waited)
            if any(e is w.ev for w in W):
                if not recvd:
                    bad.setdefault("J2-read-first", e)
                return (recvd, True)
            if e.kind == "ret" and not waited:
                bad.setdefault("J3-always-reaps", e)
            return s
        typestate(g, (False, False), trans)
        rep.oblige("J2-read-first", "J2-read-first" not in bad, label, bad.get("J2-read-first"), "waits for the process before reading its result: a child blocked on sending a large result never ends")
        rep.oblige("J3-always-reaps", "J3-always-reaps" not in bad, label, bad.get("J3-always-reaps"), "may return without waiting for the process, which stays a zombie")
        # the child may be blocked on a message that is not going to be read
        rx = {e.res for e in all_events(g) if e.kind == "call" and e.key in ops(A) and "recv" in str(e.name)}
        left = {}

        def after(t):
            return any(x.op == "hav" and x.a[0] in rx for x in subterms(t))

        def trans2(s, pos):
            e = pos.ev
            if e.kind == "call" and e.res in rx:
                return "open"
            if s == "open" and e.deep and (e.kind == "drop" and e.name != "alias" or called(e, "close", "shutdown")) and after(e.deep[0]):
                return "closed"
            if s == "open" and e.kind in ("call", "forget") and any(a.op != "&" and after(a) for a in e.deep or ()):
                return "moved"
            if any(e is w.ev for w in W) and s in ("open", "moved"):
                f = facts_of(pos)
                if not any(f.get(app("variant", app("output", r))) == 0 for r in rx):
                    left.setdefault(s, e)
            return s
        typestate(g, "start", trans2)
        rep.oblige("J7-unread-end-closed", False if "open" in left else None if left else True, label, left.get("open") or left.get("moved"),
                   "waits for a child whose message could not be read to its end while still holding the channel open: the child, blocked on sending the rest, never ends")
        # outcome table
        recvs = [e for e in all_events(g) if e.kind == "call" and e.key in ops(A) and "recv" in str(e.name)]
        outs = {}
        for e in recvs:
            outs[e.res] = app("output", e.res)
        R = positions(g, isret)
        for void in (False, True):
            for st_name, code, sig in [(f"status {c}", c, None) for c in range(256)] + [(f"killed by signal {c}", None, c) for c in range(1, 65)]:
                for rv in ("value", "nothing", "error"):
                    sc, about = join_scenario(wres, outs, code, sig, rv, void)
                    if void and rv == "value":
                        continue
                    want = "ok" if code == 0 and (rv == "value" or void and rv == "nothing") else "err"
                    hit = False
                    for p in R:
                        f = facts_of(p)
                        pos = possible(f, sc, about)
                        if pos is False:
                            continue
                        kind, val = outcome(p.ev.deep[0])
                        if kind is None:
                            rep.oblige("J4-outcome", None, label, p.ev, "result not resolved: " + show(val)[:100])
                            continue
                        hit = True
                        good = kind == want
                        why = f"child {st_name}, {rv} received{' (unit result)' if void else ''}: join returns {kind}"
                        if good and kind == "ok" and not void:
                            good = any(val is mk("fld", mk("fld", o, 0, 0), 1, 0) for o in outs.values())
                            why = f"the value returned is not the one the child sent: {show(val)[:120]}"
                        rep.oblige("J4-outcome", good if good or pos else None, label, p.ev, why, key=f"J4-outcome:{label}:{st_name}:{rv}:{void}")
                    rep.oblige("J4-covered", hit or None, label, None, f"no path found for: {st_name}, {rv}")
        # interruption
        for p in R:
            f = facts_of(p)
            for w in W:
                if f.get(app("variant", w.ev.res)) == 1:
                    kind, _ = outcome(p.ev.deep[0])
                    rep.oblige("J5-wait-error", kind == "err", label, p.ev, "a failure to wait is reported as success")


def eintr_excluded(f, res):
    """Is the failure of the call known not to be an interruption?"""
    from check_wire import err_class
    yes, no = err_class(f, res)
    return "interrupted" in no or ("wouldblock" in yes)


def join_scenario(wres, outs, code, sig, rv, void):
    if code is not None:
        st = dict(exit_status=SOME(code), terminating_signal=NONE, exited=1, signaled=0, stopped=0, continued=0, as_raw=code << 8, stopping_signal=NONE, success=int(code == 0), code=SOME(code), signal=NONE)
    else:
        st = dict(exit_status=NONE, terminating_signal=SOME(sig), exited=0, signaled=1, stopped=0, continued=0, as_raw=sig, stopping_signal=NONE, success=0, code=NONE, signal=SOME(sig))
    recv = dict(value=("agg", 0, (SOME(),)), nothing=("agg", 0, (NONE,)), error=("agg", 1, (None,)))[rv]
    base = set()
    for r in wres:
        base.add(mk("fld", mk("fld", r, 0, 0), 1, 0))
    about = set(wres) | set(outs.values()) | base

    def sc(t):
        if t in wres:
            return ("agg", 0, (SOME(),))
        if t in outs.values():
            return recv
        if t.op in ("call", "app") and isinstance(t.a[0], str) and "::" in t.a[0] or t.op == "call":
            n = str(t.a[0]).split("::")[-1]
            if n in st and t.a[1] and any(b in subterms(x) for x in t.a[1] if isinstance(x, Term) for b in base):
                return st[n]
        if t.op == "app" and t.a[0] == "implements" and "IsVoid" in show(t):
            return 1 if void else 0
        if t.op == "app" and t.a[0] == "variant" and t.a[1][0].op == "call" and t.a[1][0].a[0] == "Mutex::lock":
            return 0
        return None
    return sc, about


def flagval(t):
    ones, zeros = flagbits(t)
    return ones if ones | zeros == ALL else None


ALL = (1 << 64) - 1


def flagbits(t):
    """Bits of a set of flags known to be set and known to be clear."""
    if t.op == "int":
        return t.a[0] & ALL, ~t.a[0] & ALL
    name = str(t.a[0]) if t.a else ""
    if t.op == "call" and name.endswith("::empty"):
        return 0, ALL
    if t.op == "agg" and len(t.a[2]) == 1:
        return flagbits(t.a[2][0])
    if t.op in ("call", "bin", "app"):
        last = name.split("::")[-1]
        xs = t.a[1] if isinstance(t.a[1], tuple) else t.a[1:]
        if last in ("bitor", "union", "BitOr") and len(xs) == 2:
            (a1, a0), (b1, b0) = map(flagbits, xs)
            return a1 | b1, a0 & b0
        if last in ("bitand", "intersection", "BitAnd") and len(xs) == 2:
            (a1, a0), (b1, b0) = map(flagbits, xs)
            return a1 & b1, a0 | b0
        if last in ("sub", "difference") and len(xs) == 2:
            (a1, a0), (b1, b0) = map(flagbits, xs)
            return a1 & b0, a0 | b1
        if last in ("not", "complement", "Not") and len(xs) == 1:
            a1, a0 = flagbits(xs[0])
            return a0, a1
    return 0, 0


def self_field(t):
    """Is a term read out of `self`, with no call in between that could change it?"""
    s = [x for x in subterms(t) if x.op == "sym"]
    return len(s) == 1 and "self" in show(s[0]) or None


def pid_fields(A):
    k = A.adt("asynchronous::Child")
    return [i for i, f in enumerate(A.db.adts[k]["variants"][0]["fields"]) if tyname(f[1]) == "Pid"] if k else []


# ------------------------------------------------------------------ C16
def mutexes(e):
    return e.args[0] if e.args else None


def guard_of(e):
    """The mutex a dropped guard belongs to."""
    if e.kind != "drop" or not e.deep:
        return None
    d = unref(e.deep[0])
    if d.op == "agg" and d.a[0] == ("model", "guard"):
        return d.a[2][0]
    return None


def lastfield(t):
    """Index of the field of the handle through which a value is reached: the outermost projection of self."""
    while t.op == "&":
        t = t.a[0]
    return t.a[2] if t.op == "fld" else None


def check_kill(A, rep):
    # how join revokes
    revoke = set()
    for label, k, env in join_roots(A, rep):
        g = graph(A, rep, k, env, label)
        if g is None:
            continue
        W = waits(g)
        wset = {id(p.ev) for p in W}
        wr = {p.ev.res for p in W}
        bad = {}

        def trans(s, pos):
            e = pos.ev
            locked, written, late = s
            if e.kind == "call" and e.key in ops(A) and "recv" in str(e.name):
                if locked is not None:
                    bad.setdefault("K8-killable", (e, "join waits for the result while holding the lock: a kill request waits until the process has ended by itself"))
                elif written is not None:
                    bad.setdefault("K8-killable", (e, "join withdraws the permission to kill before it has waited for the result: the process can no longer be stopped"))
            if e.kind == "lock":
                return (e.args[0], written, late)
            if e.kind == "write" and e.args and e.args[0].op == "app" and e.args[0].a[0] == "mdata":
                m = e.args[0].a[1][0]
                if locked is not m:
                    bad.setdefault("K1-revoke-locked", e)
                v = e.args[1]
                revoke.add((lastfield(m), v))
                return (locked, v, False)
            if id(e) in wset:
                if written is None:
                    if locked is None:
                        bad.setdefault("K1-revoke-before-reap", e)
                    else:
                        return (locked, written, True)
                return s
            gm = guard_of(e)
            if gm is not None:
                f = facts_of(pos)
                if late and written is None and not any(f.get(app("variant", r)) == 1 for r in wr):
                    bad.setdefault("K1-revoke-before-reap", e)
                return (None, written, late)
            if e.kind == "ret" and late and written is None:
                f = facts_of(pos)
                if not any(f.get(app("variant", r)) == 1 for r in wr):
                    bad.setdefault("K1-revoke-before-reap", e)
            return s
        typestate(g, (None, None, False), trans)
        rep.oblige("K1-revoke-before-reap", "K1-revoke-before-reap" not in bad, label, bad.get("K1-revoke-before-reap"),
                   "the process is reaped while kill handles may still signal its number, which may already belong to another process")
        e8, why8 = bad.get("K8-killable", (None, ""))
        rep.oblige("K8-killable", "K8-killable" not in bad, label, e8, why8)
        rep.oblige("K1-revoke-locked", "K1-revoke-locked" not in bad, label, bad.get("K1-revoke-locked"), "the permission to kill is changed without holding its lock")
    vals = {v for _, v in revoke}
    rep.oblige("K1-one-meaning", len(vals) == 1 and next(iter(vals)).op == "int" if vals else False, "Child::join", None, f"the permission to kill is not definitely withdrawn by join: {[show(v) for v in vals]}")
    gone = next(iter(vals)).a[0] if len(vals) == 1 and next(iter(vals)).op == "int" else None
    childfield = {f for f, _ in revoke}
    # kill
    kk = methods(A, "kill", ["asynchronous::KillHandle", "blocking::KillHandle", "KillHandle"])
    rep.anchor("kill operation", kk)
    handlefield = set()
    pidfield = set()
    for label, k, env in kk[:1]:
        g = graph(A, rep, k, env, label)
        if g is None:
            continue
        KP = positions(g, lambda e: called(e, "kill_process", "kill", "pidfd_send_signal", "kill_process_group", "tgkill", "test_kill_process"))
        rep.oblige("K2-kills", bool(KP), label, None, "no signal is ever sent")
        kset = {id(p.ev) for p in KP}
        bad = {}

        def trans2(s, pos):
            e = pos.ev
            if e.kind == "lock":
                return s | {e.args[0]}
            gm = guard_of(e)
            if gm is not None:
                return s - {gm}
            if id(e) in kset and not s:
                bad.setdefault("K2-locked", e)
            return s
        typestate(g, frozenset(), trans2)
        rep.oblige("K2-locked", "K2-locked" not in bad, label, bad.get("K2-locked"), "the signal is sent without holding the lock that join takes: the process may be reaped in between")
        for p in KP:
            f = facts_of(p)
            perm = [(t, v) for t, v in f.items() if any(x.op == "app" and x.a[0] == "mdata" for x in subterms(t))]
            good = False
            for t, v in perm:
                m = next(x for x in subterms(t) if x.op == "app" and x.a[0] == "mdata")
                d = mk("deref", m)
                handlefield.add(lastfield(m.a[1][0]))
                x = value(t, lambda y: gone if y is d else None)
                if x is not None and (isinstance(v, int) and x != v or isinstance(v, frozenset) and x in v):
                    good = True
            rep.oblige("K3-permission", good, label, p.ev, "a signal is sent although join may already have withdrawn the permission")
            if called(p.ev, "kill_process"):
                pid, sig = p.ev.deep[0], p.ev.deep[1]
                ok = self_field(pid) and from_raw_of(pid)
                pf = [x for x in subterms(pid) if x.op == "fld" and x.a[0].op in ("deref", "sym")]
                pidfield |= {x.a[2] for x in pf}
                rep.oblige("K4-target", ok or None if "self" in show(pid) else False, label, p.ev, f"signals {show(pid)[:100]} instead of the process of this handle")
                sg = sig.a[1] if sig.op == "agg" else sig.a[0] if sig.op == "int" else None
                rep.oblige("K4-signal", None if sg is None else is_kill(A, sig), label, p.ev, f"sends {show(sig)[:60]} instead of SIGKILL, which the process may ignore")
            elif called(p.ev, "kill_process_group"):
                rep.oblige("K4-target", False, label, p.ev, "signals a whole process group instead of the process of this handle")
            else:
                rep.oblige("K4-target", None, label, p.ev, "unrecognised way of signalling")
        for p in positions(g, isret):
            f = facts_of(p)
            kind, val = outcome(p.ev.deep[0])
            done = [q for q in KP if app("variant", q.ev.res) in f]
            if kind == "ok":
                ok = any(f.get(app("variant", q.ev.res)) == 0 for q in KP)
                rep.oblige("K5-honest", ok, label, p.ev, "reports success without having signalled the process")
            elif kind == "err" and not done:
                # an error without an attempt: only when the permission is withdrawn
                sent = any(q.ev.res in {x for t in f for x in subterms(t)} for q in KP)
                perm = [(t, v) for t, v in f.items() if any(x.op == "app" and x.a[0] == "mdata" for x in subterms(t))]
                contra = False
                for t, v in perm:
                    m = next(x for x in subterms(t) if x.op == "app" and x.a[0] == "mdata")
                    x = value(t, lambda y: (1 - gone) if y is mk("deref", m) and gone is not None else None)
                    if x is not None and isinstance(v, int) and x == v:
                        contra = True
                rep.oblige("K5-usable", not contra, label, p.ev, "refuses to kill a process that was not joined")
        mine = handlefield
    # handles share the protection and the pid
    hk = methods(A, "get_kill_handle", ["asynchronous::Child", "blocking::Child", "tokio::Child", "smol::Child"])
    rep.anchor("ways to get a kill handle", hk, 2)
    for label, k, env in hk:
        g = graph(A, rep, k, env, label)
        if g is None:
            continue
        for p in positions(g, isret):
            r = p.ev.deep[0]
            if r.op != "agg":
                rep.oblige("K6-shared", None, label, p.ev, "handle not resolved: " + show(r)[:100])
                continue
            for i, x in enumerate(r.a[2]):
                if i in handlefield:
                    sh = self_field(x) and not any(y.op == "call" and y.a[2] is not None for y in subterms(x))
                    rep.oblige("K6-shared", bool(sh) and (lastfield(strip(x)) in childfield), label, p.ev, f"the handle does not share the permission flag of its child: {show(x)[:120]}")
                elif i in pidfield:
                    rep.oblige("K6-pid", bool(self_field(x)) and any(y.op == "fld" and y.a[2] in pid_fields(A) for y in subterms(x)), label, p.ev, f"the handle is for {show(x)[:120]} instead of the process of the child")
    # a fresh flag per child
    for label, k, g, C in spawn_graphs(A, rep):
        for p in positions(g, isret):
            kind, val = outcome(p.ev.deep[0])
            if kind != "ok":
                continue
            c = val
            while c.op == "agg" and len(c.a[2]) == 1:
                c = c.a[2][0]
            if c.op != "agg":
                rep.oblige("K7-fresh", None, label, p.ev, "child not resolved")
                continue
            for i, x in enumerate(c.a[2]):
                if i in childfield:
                    mn = [y for y in subterms(x) if y.op == "call" and str(y.a[0]).endswith("Mutex::new")] + [y for y in subterms(x) if y.op == "call" and str(y.a[0]).endswith("Arc::new")]
                    good = None
                    for y in mn:
                        v = y.a[1][0] if y.a[1] else None
                        if v is not None and v.op == "int":
                            good = v.a[0] != gone
                    if not mn:
                        good = False if not any(y.op == "call" and y.a[2] is not None for y in subterms(x)) else None
                    rep.oblige("K7-fresh", good, label, p.ev, f"a new child does not get its own permission flag, initially allowing kills: {show(x)[:120]}")


def strip(x):
    while x.op in ("&", "deref") or x.op == "call" and x.a[2] is None and len(x.a[1]) == 1:
        x = x.a[0] if x.op in ("&", "deref") else x.a[1][0]
    return x


def from_raw_of(pid):
    """A pid built from the raw number kept in the handle, unchanged."""
    return not any(x.op in ("bin", "lin", "int", "un") for x in subterms(pid))


def is_kill(A, sig):
    if sig.op == "int":
        return sig.a[0] == KILL
    a = A.db.adts.get(sig.a[0][1]) if isinstance(sig.a[0], tuple) and sig.a[0][0] == "adt" else None
    if a is None:
        return None
    v = a["variants"][sig.a[1]]
    return v["name"].lower() in ("kill", "sigkill") or v.get("discr") == KILL


# ------------------------------------------------------------------ starting a child
class Spawn:
    """What the analysis knows about one process creation in a spawn graph."""


def spawn_roots(A, rep):
    r = [k for k in public(A, "spawn")]
    rep.anchor("public ways of spawning", r, 3)
    return r


def spawn_graphs(A, rep):
    """[(label, key, graph, [positions of process creation])]"""
    c = getattr(A, "_spawns", None)
    if c is None:
        c = []
        for k in spawn_roots(A, rep):
            label = "::".join(k.split("::")[1:])
            g = graph(A, rep, k, {}, label)
            if g is None:
                continue
            C = positions(g, lambda e: called(e, "clone", "fork", "vfork", "posix_spawn", "clone3") and (e.key or "").split("::")[0] in ("libc", "rustix", "nix"))
            rep.anchor(f"process creation in {label}", C)
            c.append((label, k, g, C))
        A._spawns = c
    return c


def pairs(g):
    return positions(g, lambda e: called(e, "socketpair", "pair"))


def pair_ends(res):
    p = mk("fld", res, 0, 0)
    return mk("fld", p, None, 0), mk("fld", p, None, 1)


def child_end(A, g, C):
    """The channel end handed to the child: the one whose number is in the argument given to the process creation."""
    out = set()
    for c in C:
        for a in c.ev.deep:
            for x in subterms(a):
                if x.op == "fld" and x.a[1] is None and x.a[0].op == "fld" and x.a[0].a[0].op == "call" and str(x.a[0].a[0].a[0]).split("::")[-1] in ("socketpair", "pair"):
                    out.add(x)
    return out


def callbacks(A, rep):
    """{key of the function running in the child: (graph, [clone events])}"""
    out = {}
    for label, k, g, C in spawn_graphs(A, rep):
        for c in C:
            f = c.ev.deep[0]
            if f.op == "fn":
                out.setdefault(f.a[0], []).append((label, g, c))
    res = {}
    for k, l in out.items():
        cg = graph(A, rep, k, {}, k)
        if cg is not None:
            res[k] = (cg, l)
    rep.anchor("functions running in the new process", list(res))
    return res


def execs(g):
    return positions(g, lambda e: called(e, "execv", "execve", "execvp", "execvpe", "execveat", "fexecve"))


BORROWING = {"deref", "as_ref", "borrow", "as_ptr", "as_slice", "as_bytes", "as_str", "as_c_str", "len", "is_empty", "iter", "index", "next",
             "as_mut_ptr", "into_iter", "as_fd", "as_raw_fd", "borrow_raw", "get", "first", "last", "to_bytes_with_nul", "get_unchecked", "eq", "ne"}
OWNERS = {"Vec", "Box", "String", "CString", "UnixStream", "OwnedFd", "Arc", "Rc", "MutexGuard", "HashMap", "OsString", "Duplex", "Sender", "Receiver", "File", "Error"}


def std_call(key):
    """Verdict on an external call between process creation and exec: True allowed, False forbidden, None unknown."""
    root = key.split("::")[0]
    last = key.split("::")[-1]
    if root in ("rustix", "libc", "linux_raw_sys"):
        return True
    if root == "core":
        if "panicking" in key or last in ("unwrap_failed", "expect_failed"):
            return False
        return True
    if root == "alloc":
        return last in BORROWING
    if root == "std":
        if last in BORROWING or last in ("last_os_error", "from_raw_os_error", "abort", "raw_os_error", "from") or key.startswith("std::os::"):
            return True
        for p in ("std::io::stdio", "std::thread", "std::sync", "std::env", "std::fs", "std::process::exit", "std::collections", "std::time", "std::net", "std::panic"):
            if key.startswith(p):
                return False
        if "::io::error::" in key and last in ("new", "other", "_new"):
            return False
        return None
    return None


def reaches(g, targets):
    """Ids of the nodes from which one of the events is reachable."""
    ids = {id(p.ev) for p in targets}
    seed = set()
    for n in g.nodes:
        if any(id(e) in ids for e in n.events) or any(id(e) in ids for x in n.succs for e in x.events):
            seed.add(n.id)
    work = [n for n in g.nodes if n.id in seed]
    while work:
        n = work.pop()
        for e in n.preds:
            if e.src is not None and e.src.id not in seed:
                seed.add(e.src.id)
                work.append(e.src)
    return seed


def check_child(A, rep):
    """C14: the function that runs in the child."""
    for k, (g, sites) in callbacks(A, rep).items():
        label = k.split("::")[-1]
        for l, sg, c in sites:
            if called(c.ev, "clone"):
                fl = c.ev.deep[2]
                if fl.op != "int":
                    rep.oblige("P1-flags", None, l, c.ev, "flags not determined")
                    continue
                v = fl.a[0]
                rep.oblige("P1-flags", (v & 0xff) == SIGCHLD, l, c.ev, f"the child does not notify its parent with SIGCHLD (clone flags {v:#x}): waiting for it fails")
                rep.oblige("P1-suspended", not v & CLONE_VM or bool(v & CLONE_VFORK), l, c.ev, "the child shares the parent's memory, stack included, while the parent goes on")
                rep.oblige("P1-files", not v & (CLONE_FILES | CLONE_SIGHAND | CLONE_THREAD), l, c.ev, f"the child shares its descriptor table or signal handling with the parent (clone flags {v:#x})")
        X = execs(g)
        if not rep.oblige("P2-exec", bool(X), label, None, "the new image is never executed"):
            continue
        pre = reaches(g, X)
        xid = {id(p.ev) for p in X}
        n_calls = 0
        for n in g.nodes:
            if n.id not in pre:
                continue
            if n.ctx.key.split("::")[0] == "models":
                continue
            t = n.ctx.body.blocks[n.bb]["t"]
            if t[0] == "call":
                key = t[1][1] if t[1][0] == "fn" else None
                if key is None:
                    rep.oblige("P2-safe-calls", None, label, None, f"indirect call in {n.ctx.key}")
                    continue
                d = A.db.defs.get(key) or {}
                if d.get("local") or key in A.db.bodies:
                    continue
                v = std_call(key)
                n_calls += 1
                rep.oblige("P2-safe-calls", v, f"{label}:{A.db.short(key)}", fake(n, key), f"{A.db.short(key)} is called between process creation and exec, while the memory is shared with the parent's threads")
        # events on the way to exec
        for n in g.nodes:
            if n.id not in pre:
                continue
            for e in n.events + [e for x in n.succs if x.dst is not None and x.dst.id in pre for e in x.events]:
                if e.kind == "drop" and str(e.name).split("<")[0] in OWNERS:
                    rep.oblige("P3-no-release", False, f"{label}:{e.name}", e, f"{e.name} is released between process creation and exec, in memory shared with the parent")
                elif e.kind in ("lock", "lockfail"):
                    rep.oblige("P3-no-locks", False, label, e, "a lock is taken between process creation and exec")
        rep.oblige("P2-safe-calls", True, f"{label}: {n_calls} external calls on the way to exec", None)
        # ends
        for p in ends(g):
            e = p.ev
            if e.kind == "ret":
                v = e.deep[0]
                rep.oblige("P4-ends", None if v.op != "int" else v.a[0] != 0, label, e, "the child ends with status 0 although the image was not executed")
            elif e.kind == "panic" or "panicking" in str(e.key or e.name):
                lenbound = "bounds" in str(e.name)
                rep.oblige("P4-no-unwinding", None if lenbound else False, label, e, f"the child may unwind ({e.name}), releasing what belongs to the parent")
            else:
                nm = str(e.name).split("::")[-1]
                rep.oblige("P4-ends", nm in ("abort", "_exit", "exit_group", "abort_internal") or (None if nm != "exit" else False), label, e, f"the child ends through {e.name}, which runs the parent's exit handlers")
        # failure leads to an end, not to exec or success: exec only after every preparation succeeded
        for x in X:
            f = facts_of(x)
            for t, v in f.items():
                if t.op == "app" and t.a[0] == "variant" and t.a[1][0].op == "call" and "fcntl" in str(t.a[1][0].a[0]):
                    rep.oblige("P5-prepared", v == 0, label, x.ev, "the image is executed although preparing a descriptor failed")
    # parent: failure to create
    for label, k, g, C in spawn_graphs(A, rep):
        for p in ends(g):
            f = facts_of(p)
            for c in C:
                r = c.ev.res
                if not any(r in subterms(t) for t in f):
                    continue
                fail = possible(f, lambda t: -1 if t is r else None, {r})
                good = possible(f, lambda t: 1234 if t is r else (SOME(None) if t.op == "call" and str(t.a[0]).endswith("Pid::from_raw") and r in t.a[1] else None), {r})
                if p.ev.kind == "ret":
                    kind, val = outcome(p.ev.deep[0])
                    if fail is not False:
                        rep.oblige("P6-create-error", kind == "err" or (None if fail is None else False), label, p.ev, "a failure to create the process is not reported")
                    if good is not False and kind == "ok":
                        rep.oblige("P6-create-pid", has(val, r) or None, label, p.ev, "the child returned does not stand for the process created")
                elif fail is not False and good is not True:
                    rep.oblige("P6-create-error", False if fail else None, label, p.ev, f"a failure to create the process leads to {p.ev.name}")


class fake:
    """Location of a call for reports."""

    def __init__(self, n, name):
        self.file, self.line, self.where, self.name, self.ctx = n.ctx.body.file, (n.ctx.body.blocks[n.bb]["t"][5] if len(n.ctx.body.blocks[n.bb]["t"]) > 5 else None), n.ctx.key, name, n.ctx


# ------------------------------------------------------------------ C15
def owns(t, x):
    """Does a value hold descriptor x as an owner (not merely its number, a borrow, or something computed from it)?"""
    if t is x:
        return True
    if t.op == "agg":
        return any(owns(y, x) for y in t.a[2])
    if t.op == "app" and t.a[0] in ("conv", "owned", "add", "coll"):
        return any(owns(y, x) for y in t.a[1] if isinstance(y, Term))
    if t.op in ("fld", "with", "upd", "hav"):
        return has(t, x) and not any(y.op == "app" and y.a[0] == "fdof" and has(y, x) for y in subterms(t))
    if t.op == "call":
        return t.a[2] is not None and any(isinstance(y, Term) and owns(y, x) for y in t.a[1])
    return False


def releases(e, x):
    """Does this event end the ownership of descriptor x?"""
    if e.kind == "drop" and e.deep and e.name != "alias":
        return owns(e.deep[0], x)
    if called(e, "close"):
        return any(has(a, x) for a in e.deep or ())
    return False


def check_parent_end(A, rep):
    for label, k, g, C in spawn_graphs(A, rep):
        E = child_end(A, g, C)
        if not E:
            rep.oblige("Q1-identified", None, label, None, "the child's channel end is not recognised")
            continue
        cset = {id(c.ev) for c in C}
        for x in E:
            bad = {}

            def trans(s, pos):
                e = pos.ev
                started, closed = s
                if id(e) in cset:
                    return (True, closed)
                if releases(e, x):
                    return (started, True)
                if started and not closed:
                    if e.kind == "call" and e.key in ops(A):
                        bad.setdefault("Q2-before-use", e)
                    elif e.kind == "suspend":
                        bad.setdefault("Q2-before-use", e)
                    elif e.kind == "ret":
                        bad.setdefault("Q3-released", e)
                return s
            typestate(g, (False, False), trans)
            rep.oblige("Q2-before-use", "Q2-before-use" not in bad, label, bad.get("Q2-before-use"), "the parent uses its end of the channel while it still holds the child's end: if the child dies, it waits forever")
            rep.oblige("Q3-released", "Q3-released" not in bad, label, bad.get("Q3-released"), "the parent keeps the child's end of the channel open: the death of the child is never noticed")
            # duplicates
            for e in all_events(g):
                if called(e, "try_clone", "dup", "try_clone_to_owned", "fcntl_dupfd_cloexec", "dup2") and any(has(a, x) for a in e.deep or ()):
                    rep.oblige("Q4-no-copy", False, label, e, "the parent duplicates the child's end of the channel")
        rep.oblige("Q4-no-copy", True, label, None)


# ------------------------------------------------------------------ C13
MAKERS = {"socketpair": 2, "socket": 2, "socket_with": 2, "socketpair_with": 2, "open": 1, "openat": 2, "pipe_with": 0, "accept_with": 1, "memfd_create": 1, "eventfd": 1,
          "dup3": 2, "epoll::create": 0, "inotify_init": 0}
UNSAFE_MAKERS = {"dup", "pipe", "dup2", "accept", "creat"}


def cloexec_flags(t):
    """Does a flags value contain CLOEXEC? (None: not determined)"""
    v = flagval(t)
    if v is not None:
        return bool(v & CLOEXEC_SOCK)
    return None


def all_roots(A, rep):
    """Every public operation that may create or receive descriptors."""
    out = []
    for name in ("channel", "duplex"):
        for k in public(A, name):
            if any(x[0] == "Stream" for x in A.db.defs[k].get("generics") or []):
                for n, ty, b in A.streams():
                    out.append(("::".join(k.split("::")[1:]) + f"<{n}>", k, A.env_for(k, Stream=ty)))
            else:
                out.append(("::".join(k.split("::")[1:]), k, {}))
    return out


def setfd_value(e):
    """New descriptor flags set by an event, or None if it is no such event: int or 'unknown'."""
    if called(e, "fcntl_setfd"):
        return cloexec_bit(e.deep[1])
    if called(e, "fcntl") and e.deep and len(e.deep) > 2 and e.deep[1].op == "int" and e.deep[1].a[0] == 2:
        return cloexec_bit(e.deep[2])
    if called(e, "ioctl_fionclex"):
        return 0
    if called(e, "ioctl_fioclex"):
        return 1
    return None


def cloexec_bit(t):
    ones, zeros = flagbits(t)
    return 1 if ones & 1 else 0 if zeros & 1 else "unknown"


def fd_of(e):
    return unref(e.deep[0])


def check_cloexec(A, rep):
    import check_wire
    for p, rule, ok, subj, ev, detail in check_wire.analyse(A, rep):
        if p == "C13":
            rep.oblige(rule, ok, subj, ev, detail)
    gs = []
    n = 0
    for label, k, env in all_roots(A, rep):
        g = graph(A, rep, k, env, label)
        if g is not None:
            gs.append((label, g))
    rep.anchor("channel constructors", gs, 2)
    sp = spawn_graphs(A, rep)
    gs += [(l, g) for l, k, g, C in sp]
    ig = init_graph(A, rep)
    if ig is not None:
        gs.append(("init", ig))
    seen_pair = 0
    for label, g in gs:
        for e in all_events(g):
            v = setfd_value(e)
            if v is not None:
                rep.oblige("X3-no-exposure", None if v == "unknown" else bool(v & 1), label, e, "a descriptor is made inheritable in a process that runs user code: any program started meanwhile gets it")
            if e.kind == "call" and (e.key or "").split("::")[0] in ("rustix", "libc", "nix"):
                nm = str(e.name).split("::")[-1]
                if nm in MAKERS and len(e.deep or ()) > MAKERS[nm]:
                    i = MAKERS[nm]
                    c = cloexec_flags(e.deep[i])
                    if (e.key or "").startswith("libc") and nm in ("socket", "socketpair"):
                        c = cloexec_flags(e.deep[1])
                    seen_pair += nm == "socketpair"
                    rep.oblige("X2-created-cloexec", c, f"{label}:{nm}", e, f"{nm} creates a descriptor that is not close-on-exec: any program started meanwhile inherits it")
                elif nm in UNSAFE_MAKERS:
                    rep.oblige("X2-created-cloexec", False, f"{label}:{nm}", e, f"{nm} creates a descriptor that is not close-on-exec")
    rep.anchor("socket pair creations", seen_pair)
    # every call site of the crate, also those outside the operations above
    sites = 0
    for k, b in A.db.bodies.items():
        if b.crate != "crossmist" or not str(b.file).startswith("src"):
            continue
        for blk in b.blocks:
            t = blk["t"]
            if t[0] != "call" or t[1][0] != "fn":
                continue
            key = t[1][1]
            if key.split("::")[0] not in ("rustix", "libc"):
                continue
            nm = key.split("::")[-1]
            sites += 1
            if nm in UNSAFE_MAKERS:
                rep.oblige("X6-call-sites", False, f"{k}:{nm}", None, f"{k} calls {nm}, whose descriptors are not close-on-exec")
    rep.oblige("X6-call-sites", True, f"{sites} call sites of rustix and libc", None)
    # the child: exactly its own end and the handles passed
    for k, (g, cl) in callbacks(A, rep).items():
        label = k.split("::")[-1]
        X = execs(g)
        made = {}
        for p in positions(g, lambda e: setfd_value(e) is not None):
            v = setfd_value(p.ev)
            if v == "unknown":
                rep.oblige("X4-child-set", None, label, p.ev, "flags not determined")
                continue
            if v & 1:
                continue
            made.setdefault(fd_of(p.ev), []).append(p)
        for l, sg, c in cl:
            arg = c.ev.deep[-1]
            E = child_end(A, sg, [c])
            hl = handle_list(A, sg)
            cov = dict(end=False, handles=False)
            base = arg_struct(arg)
            for t, ps in made.items():
                s = in_parent(t, base)
                what = None
                if s is None:
                    rep.oblige("X4-child-set", None, l, ps[0].ev, f"descriptor not traced to the parent: {show(t)[:100]}")
                    cov = None
                    continue
                if any(is_fd_of(s, e) for e in E):
                    what = "end"
                elif s.op == "app" and s.a[0] == "elem" or "elem" in str(s.a[0]) or any(y.op == "app" and y.a[0] == "elem" for y in subterms(s)):
                    lst = next((y.a[1][0] for y in subterms(s) if y.op == "app" and y.a[0] == "elem"), None)
                    if lst is not None and hl is not None and unref(lst) in hl:
                        what = "handles"
                        # every element, before exec
                        el = next(y for y in subterms(t) if y.op == "app" and y.a[0] == "elem") if any(y.op == "app" and y.a[0] == "elem" for y in subterms(t)) else None
                        over = el is not None and skipped(g, el, lambda e, x: setfd_value(e) is not None and has(fd_of(e), x))
                        rep.oblige("X4-all-handles", not over, l, ps[0].ev, f"some of the handles passed to the child are not made inheritable (for example {over})")
                        done = all(exhausted(facts_of(x), t) for x in X)
                        rep.oblige("X4-all-handles", done or None if done is not False else False, l, ps[0].ev, "the image may be executed before every handle passed to it was made inheritable")
                if what:
                    if cov is not None:
                        cov[what] = True
                    rep.oblige("X4-child-set", True, f"{l}: {what}", ps[0].ev)
                else:
                    rep.oblige("X4-child-set", False, l, ps[0].ev, f"the child makes {show(s)[:100]} inheritable, which is neither its channel end nor a handle passed to it")
            if cov is not None:
                rep.oblige("X4-own-end", cov["end"], l, c.ev, "the child's channel end is not made inheritable: the child cannot be reached")
                rep.oblige("X4-handles", cov["handles"] or (None if hl is None else False), l, c.ev, "the handles passed to the child are not made inheritable")
    # in the new process, protected again before user code
    if ig is not None:
        check_reprotect(A, rep, ig)


def arg_struct(t):
    t = unref(t)
    while t is not None and t.op in ("cast", "reinterp", "pcast"):
        t = unref(t.a[-1])
    if t is not None and t.op == "app" and t.a[0] in ("reinterp", "addr_of"):
        for y in t.a[1]:
            y = unref(y)
            if y.op == "agg":
                return y
    return t


def in_parent(t, base):
    """A term over the child's argument expressed in the parent's values."""
    if base is None or base.op != "agg":
        return None

    def sub_(x):
        if x.op == "fld" and x.a[1] is None or x.op == "fld":
            b = x.a[0]
            if (b.op == "app" and b.a[0] == "reinterp" or b.op == "deref") and "arg" in show(b) and x.a[2] < len(base.a[2]):
                return base.a[2][x.a[2]]
        if x.op == "deref" and x.a[0].op == "&":
            return x.a[0].a[0]
        return None
    r = rewrite(t, sub_)
    return r if not any("$arg" in show(x) for x in subterms(r) if x.op == "sym" and "arg" in show(x)) or True else None


def is_fd_of(s, end):
    s = unref(s)
    return s.op == "app" and s.a[0] in ("fdof",) and (s.a[1][0] is end or has(s.a[1][0], end)) or s is end


def handle_list(A, g):
    """The lists of handles produced by serializing the entry."""
    out = set()
    for e in all_events(g):
        if e.kind == "call" and e.key and e.key.endswith("NonTrivialObject::serialize_self_non_trivial") and e.res is not None:
            out.add(e.res)
    if not out:
        return None

    class L:
        def __contains__(self, t):
            return any(x.op == "hav" and x.a[0] in out for x in subterms(t)) or t.op == "app" and t.a[0] == "new"
    return L()


def partial(g, el):
    """Why a loop that takes this element does not visit every element of its list (None when it may well)."""
    from paths import growth
    from terms import _linparts
    lst, i = el.a[1][0], el.a[1][1]
    if lst.op == "app" and lst.a[0] == "sub" and len(lst.a[1]) > 1 and lst.a[1][1].op == "int" and lst.a[1][1].a[0] > 0:
        return f"the first {lst.a[1][1].a[0]} are left out"
    c, parts = _linparts(i)
    ph = [x for x in parts if x.op == "phi"]
    if len(ph) != 1 or len(parts) != 1 or parts[ph[0]] not in (1,):
        return None
    init, back = growth(g, ph[0])
    if init and all(v is not None and v.op == "int" and v.a[0] + c > 0 for v in init) and all(v is not None and v is add(ph[0], num(1)) for v in back):
        return f"the first {min(v.a[0] + c for v in init)} are left out"
    if back and all(v is not None and any(v is add(ph[0], num(k)) for k in range(2, 9)) for v in back):
        return "only some are visited"
    return None


def skipped(g, el, done):
    """A case in which the loop that takes this element moves on without done(event, element): a sample of its number, or None.

    Only cases that the number, its position and the length decide are told; anything else may be a good reason."""
    from points import point
    lst, i = el.a[1][0], el.a[1][1]
    if i.op != "phi":
        return None
    heads = [n for n in g.nodes if n.phis and i in n.phis]
    if len(heads) != 1:
        return None
    h = heads[0]
    at, number, many = (mk("sym", "J", x) for x in ("position", "number", "length"))
    memo = {i: at, el: number, app("fdof", el): number, length(lst): many}
    work, seen, n = [(e, ()) for e in h.succs], set(), 0
    while work:
        e, fs = work.pop()
        n += 1
        if n > 4000:
            return None
        if any(done(x, el) for x in e.events):
            continue
        fs = fs + tuple(sorted(e.facts.items(), key=lambda kv: (kv[0].h, str(kv[1]))))
        d = e.dst
        if d is None:
            continue
        if d is h:
            if e.assign.get(i) is not add(i, num(1)):
                continue
            F = {}
            for t, v in fs:
                F[rewrite(t, lambda x: None, memo)] = v
            free = lambda t: t.op == "sym" and t.a[0] == "J"
            p = point(F, free)
            if p:
                return ", ".join(f"{t.a[1]} {x}" for t, x in sorted(p.items(), key=lambda kv: kv[0].a[1]))
            continue
        if any(done(x, el) for x in d.events):
            continue
        key = (d.id, fs)
        if key in seen:
            continue
        seen.add(key)
        for x in d.succs:
            work.append((x, fs))
    return None


def exhausted(f, t):
    """The loop over the list an element was taken from has ended."""
    el = next((y for y in subterms(t) if y.op == "app" and y.a[0] == "elem"), None)
    if el is None:
        return None
    lst, i = el.a[1][0], el.a[1][1]
    n = length(lst)
    for u, v in f.items():
        if u.op == "bin" and u.a[0] == "Lt" and v == 0 and (u.a[2] is n or lst in subterms(u.a[2])):
            return True
        if v == 0 and (u is n):
            return True
        if u.op == "bin" and u.a[0] == "Eq" and v == 1 and lst in subterms(u):
            return True
    return False


# ------------------------------------------------------------------ the new process
def init_graph(A, rep):
    c = getattr(A, "_init", None)
    if c is None:
        k = next((k for k in public(A, "init")), None)
        rep.anchor("init", k)
        c = A._init = graph(A, rep, k, {}, "init") if k else None
    return c


def user_entry(e):
    """The call that hands control to the user's function, or any call through a pointer read from the message."""
    return e.kind == "call" and (str(e.name) == "<value>" or "call_object" in str(e.name))


def check_reprotect(A, rep, g):
    adopted = positions(g, lambda e: e.kind == "fd_adopt")
    U = positions(g, user_entry)
    rep.anchor("transfer of control to the user's function", U)
    own, lists = set(), set()
    for p in adopted:
        t = p.ev.deep[0]
        (lists if any(y.op == "app" and y.a[0] == "elem" for y in subterms(t)) else own).add(t)
    sets = positions(g, lambda e: setfd_value(e) == 1)
    unsure = positions(g, lambda e: setfd_value(e) == "unknown")
    for t in own:
        bad = {}

        def trans(s, pos):
            e = pos.ev
            if any(e is q.ev for q in sets) and (has(fd_of(e), t)):
                return True
            if any(e is q.ev for q in unsure) and has(fd_of(e), t):
                return None
            if user_entry(e) and not s:
                bad.setdefault(s, e)
            return s
        typestate(g, False, trans)
        rep.oblige("X5-own-end", False if False in bad else None if bad else True, "init", next(iter(bad.values()), None), "user code runs in the child while its channel end is still inheritable")
    looped = [q for q in sets if any(y.op == "app" and y.a[0] == "elem" and y.a[1][1].op != "int" for y in subterms(fd_of(q.ev)))]
    if lists or any(True for _ in U):
        ok = bool(looped) or (None if any(y.op == "app" and y.a[0] == "elem" for q in unsure for y in subterms(fd_of(q.ev))) else False)
        rep.oblige("X5-handles", ok, "init", U[0].ev if U else None, "the handles passed to the child stay inheritable while user code runs")
        parts = [partial(g, y) for q in looped for y in subterms(fd_of(q.ev)) if y.op == "app" and y.a[0] == "elem"]
        if parts:
            rep.oblige("X5-handles", not all(parts), "init", looped[0].ev, f"not every handle passed to the child is protected again before user code runs ({next((x for x in parts if x), '')})")
        els = {y for q in looped for y in subterms(fd_of(q.ev)) if y.op == "app" and y.a[0] == "elem"}
        protects = lambda e, el: setfd_value(e) is not None and has(fd_of(e), el)
        left = [skipped(g, y, protects) for y in els]
        if left:
            rep.oblige("X5-handles", not all(left), "init", looped[0].ev, f"some of the handles passed to the child stay inheritable while user code runs (for example {next((x for x in left if x), '')})")
        for u in U:
            f = facts_of(u)
            for q in looped[:1]:
                rep.oblige("X5-all-handles", exhausted(f, fd_of(q.ev)) or None, "init", u.ev, "user code may run before every handle was protected")


# ------------------------------------------------------------------ C18
def statics_in(t):
    return {show(x) for x in subterms(t) if "static" in show(x) and x.op in ("sym", "app", "const", "&")}


def static_of(e):
    for a in (e.deep or ()):
        s = show(a)
        if "static" in s:
            return s
    return None


def check_init(A, rep):
    g = init_graph(A, rep)
    if g is None:
        return
    stores = positions(g, lambda e: called(e, "swap", "store", "compare_exchange", "compare_exchange_weak", "compare_and_swap", "fetch_or", "fetch_and") and static_of(e) is not None)
    flags = {}
    for p in stores:
        vals = p.ev.deep[2:] if called(p.ev, "compare_exchange", "compare_exchange_weak", "compare_and_swap") else p.ev.deep[1:]
        v = next((x for x in vals if x.op == "int"), None)
        if v is not None:
            flags.setdefault(static_of(p.ev).replace("&", ""), set()).add(v.a[0])
    # other ways of recording are not followed
    other = not flags and positions(g, lambda e: e.kind in ("call", "lock") and static_of(e) is not None and not called(e, "load"))
    if other:
        rep.oblige("I1-records", None, "init", other[0].ev, "unrecognised way of recording that initialization ran")
    else:
        rep.oblige("I1-records", bool(flags), "init", None, "initialization leaves no trace: spawning cannot check it")
    # every return of init is after the record, and not in a child
    bad = {}
    sset = {id(p.ev) for p in stores}

    def trans(s, pos):
        e = pos.ev
        if id(e) in sset:
            return True
        if e.kind == "ret" and not s:
            f = facts_of(pos)
            # an earlier call has recorded it
            if not any(x.op == "call" and "load" in str(x.a[0]) and load_ok(g, x, flags, v if t is x else None, t, v) for t, v in f.items() for x in subterms(t)):
                bad.setdefault("I1", e)
        return s
    typestate(g, False, trans)
    rep.oblige("I1-always-records", None if other else "I1" not in bad, "init", bad.get("I1"), "initialization may return without recording that it ran")
    marker = set()
    for kk, (cg, cl) in callbacks(A, rep).items():
        for x in execs(cg):
            argv = unref(x.ev.deep[1])
            if argv.op == "agg" and argv.a[2]:
                m = literal(argv.a[2][0])
                if m is not None:
                    marker.add(m)
    rep.oblige("I2-marker", len(marker) == 1 or (None if not marker else False), "exec", None, f"the mark given to children is not determined: {marker}")
    m = next(iter(marker)) if len(marker) == 1 else None
    seen = False
    cmp_terms = set()
    for p in positions(g, lambda e: True):
        for t in facts_of(p):
            if t.op == "bin" and t.a[0] == "Eq" and any(literal(x) is not None for x in (t.a[1], t.a[2])):
                cmp_terms.add(t)
    mine = [t for t in cmp_terms if m is not None and m in (literal(t.a[1]), literal(t.a[2]))]
    rep.oblige("I2-recognised", bool(mine) or (None if m is None or not cmp_terms else False), "init", None, f"initialization does not look for the mark given to children ({m!r}): children run the user's main")
    # the mark is looked for in the program's name, and there only, in full
    for t in mine:
        ok, why = first_argument(g, t.a[2] if literal(t.a[1]) == m else t.a[1])
        rep.oblige("I2-first-argument", ok, "init", None, why)
    if m is not None and not mine:
        for p in positions(g, lambda e: e.kind == "call" and str(e.name).split("::")[-1] in ("starts_with", "ends_with", "contains", "eq_ignore_ascii_case", "find", "rfind", "matches")):
            if any(literal(unref(x)) == m for x in p.ev.deep or ()):
                used = [q for q in ends(g) if q.ev.kind != "ret" and any(p.ev.res in subterms(t) for t in facts_of(q))]
                base = {y for y in subterms(unref(p.ev.deep[0])) if y.op == "call"}
                if used and not any(any(y in base for y in subterms(t)) and t.op == "bin" for q in used for t in facts_of(q)):
                    rep.oblige("I2-first-argument", False, "init", p.ev, f"a program whose name merely has the mark in it ({str(p.ev.name).split('::')[-1]}) is taken for a child")
    for p in ends(g):
        f = facts_of(p)
        isch = any(f.get(t) == 1 for t in mine)
        if p.ev.kind == "ret":
            rep.oblige("I3-child-ends", not isch, "init", p.ev, "in a child, initialization returns and the user's main runs")
        elif p.ev.kind == "diverge" and isch:
            nm = str(p.ev.name).split("::")[-1]
            rep.oblige("I3-child-ends", True, f"init: {nm}", p.ev)
    # only for children
    for p in positions(g, lambda e: user_entry(e) or e.kind == "fd_adopt" or called(e, "exit")):
        f = facts_of(p)
        if mine:
            rep.oblige("I4-only-children", any(f.get(t) == 1 for t in mine), "init", p.ev, "initialization acts as a child in a process that is none")
    # repeated calls are harmless: the second call sees the flag set
    for p in positions(g, isret):
        pass
    # spawning requires it
    for label, k, sg, C in spawn_graphs(A, rep):
        for c in C + pairs(sg):
            f = facts_of(c)
            ok = False
            for t, v in f.items():
                for x in subterms(t):
                    if x.op == "call" and "load" in str(x.a[0]):
                        ok = ok or load_ok(sg, x, flags, v if t is x else None, t, v)
            rep.oblige("I5-spawn-checks", ok or (None if other else False), label, c.ev, f"{'a process' if c in C else 'a channel'} is created without checking that initialization ran: the child would run the user's main, spawning endlessly")
    # the check is a refusal
        P = [p for p in ends(sg) if p.ev.kind in ("panic", "diverge") or p.ev.kind == "ret"]
        rep.oblige("I5-refuses", True if P else None, label, None)


CONSUME = ("next", "nth", "next_back", "nth_back", "last", "advance_by", "skip_while", "next_if")


def first_argument(g, x):
    """Is the value the first element of the program's argument list?"""
    while x.op in ("fld", "&", "deref", "pcast") or x.op == "app" and x.a[0] in ("conv", "view"):
        x = x.a[0] if x.op != "app" and x.op != "pcast" else x.a[-1] if x.op == "pcast" else x.a[1][-1]
    if x.op != "call":
        return None, f"where the mark is looked for is not determined: {show(x)[:100]}"
    src = [e for e in all_events(g) if e.res is x]
    if not src or str(src[0].name).split("::")[-1] not in CONSUME:
        return None, f"where the mark is looked for is not determined: {show(x)[:100]}"
    nm = str(src[0].name).split("::")[-1]
    if nm == "nth" and len(src[0].deep) > 1 and src[0].deep[1].op == "int" and src[0].deep[1].a[0] == 0:
        nm = "next"
    if nm != "next":
        return False, f"the mark is looked for in another argument than the program's name ({nm}): a user's argument turns the program into a child"
    ids = {id(e) for e in src}
    bad = []

    def trans(s, pos):
        e = pos.ev
        if id(e) in ids and s:
            bad.append(e)
        if e.kind == "call" and str(e.name).split("::")[-1] in CONSUME and "Iterator" in str(e.key or e.name) + str(e.name):
            return True
        return s
    typestate(g, False, trans)
    return not bad, "the mark is looked for in other arguments than the program's name: a user's argument turns the program into a child"


def load_ok(g, x, flags, direct, t, v):
    """The load x read a recorded value of the flag init sets."""
    for e in all_events(g):
        if e.res is x:
            s = (static_of(e) or "").replace("&", "")
            for fs, vals in flags.items():
                if same_static(fs, s):
                    for w in vals:
                        y = value(t, lambda z: w if z is x else None)
                        if y is not None and (isinstance(v, int) and y == v or isinstance(v, frozenset) and y not in v):
                            # and the initial value is refused
                            y0 = value(t, lambda z: 1 - w if z is x else None)
                            if y0 is None or isinstance(v, int) and y0 != v or isinstance(v, frozenset) and y0 in v:
                                return True
    return False


def same_static(a, b):
    import re
    ra, rb = re.findall(r"'static': '([^']*)'", a), re.findall(r"'static': '([^']*)'", b)
    return bool(ra) and ra == rb


def literal(t):
    """Text of a string constant."""
    t = unref(t)
    for x in [t] + list(subterms(t)):
        if x.op in ("str", "bytes", "lit") and x.a:
            s = x.a[0]
            if isinstance(s, bytes):
                s = s.decode("latin1")
            if isinstance(s, str):
                return s.rstrip("\0")
    s = show(t)
    import re
    m = re.search(r"b?'([^']*)'", s)
    if m and ("addr_of(" in s or s.startswith("'") or s.startswith("b'")):
        return m.group(1).replace("\\x00", "")
    return None


# ------------------------------------------------------------------ C19
def check_handshake(A, rep):
    # exec arguments
    for k, (g, cl) in callbacks(A, rep).items():
        label = k.split("::")[-1]
        for x in execs(g):
            path, argv = x.ev.deep[0], unref(x.ev.deep[1])
            rep.oblige("H1-image", literal(path) == "/proc/self/exe" if literal(path) is not None else None, label, x.ev, f"the child executes {literal(path)!r} instead of the parent's own program")
            if argv.op != "agg":
                rep.oblige("H1-argv", None, label, x.ev, "argument vector not resolved")
                continue
            a = argv.a[2]
            rep.oblige("H1-argv", len(a) == 3 and "null" in show(a[2]) or (None if len(a) > 3 else False), label, x.ev, "the argument vector is not the mark, the number of the channel end and a terminator")
            if len(a) >= 2:
                for l, sg, c in cl:
                    E = child_end(A, sg, [c])
                    s = in_parent(a[1], arg_struct(c.ev.deep[-1]))
                    ends_in = [y for y in subterms(s) if y.op == "fld" and y.a[1] is None and y.a[0].op == "fld" and y.a[0].a[0].op == "call" and str(y.a[0].a[0].a[0]).endswith("socketpair")] if s is not None else []
                    rep.oblige("H1-number", len(set(ends_in)) == 1 or None, l, x.ev, f"the number given to the child is not that of its channel end: {show(s)[:150] if s is not None else '?'}")
                    made = [fd_of(p.ev) for p in positions(g, lambda e: setfd_value(e) == 0)]
                    base = arg_struct(c.ev.deep[-1])
                    inh = set()
                    for t in made:
                        u = in_parent(t, base)
                        inh |= {y for y in subterms(u) if y in E}
                    if ends_in and inh:
                        rep.oblige("H1-same-end", set(ends_in) <= inh, l, x.ev, "the number given to the child is not that of the end it inherits")
    sent_types = set()
    for label, k, g, C in spawn_graphs(A, rep):
        cset = {id(c.ev) for c in C}
        E = child_end(A, g, C)
        bad = {}
        S = positions(g, lambda e: e.kind == "call" and e.key in ops(A) and "send" in str(e.name))
        sset = {id(p.ev) for p in S}

        def trans(s, pos):
            e = pos.ev
            started, sent = s
            if id(e) in cset:
                return (True, sent)
            if id(e) in sset:
                if not started:
                    bad.setdefault("H2-order", e)
                if sent:
                    bad.setdefault("H2-once", e)
                return (started, True)
            if e.kind == "ret":
                kind, _ = outcome(e.deep[0])
                if kind == "ok" and not sent:
                    bad.setdefault("H2-sent", e)
            return s
        typestate(g, (False, False), trans)
        for r, why in (("H2-once", "more than one start-up message is sent"), ("H2-sent", "a child is reported as started although it was not told what to run")):
            rep.oblige(r, r not in bad, label, bad.get(r), why)
        for p in S:
            v = unref(p.ev.deep[1])
            sent_types.add(p.ev.targs[1] if p.ev.targs and len(p.ev.targs) > 1 else None)
            chan = p.ev.deep[0]
            other = {y for y in subterms(chan) if y.op == "fld" and y.a[1] is None and y.a[0].op == "fld"}
            rep.oblige("H2-own-end", not (other & E), label, p.ev, "the parent sends on the child's end of the channel")
            if v.op != "agg" or len(v.a[2]) != 2:
                rep.oblige("H2-message", None, label, p.ev, "start-up message not resolved: " + show(v)[:100])
                continue
            data, raws = v.a[2]
            rep.oblige("H2-data", from_serializer(g, data) if pod_entry(facts_of(p)) else from_serializer(g, data), label, p.ev, f"the bytes sent are not those of the encoded function: {show(data)[:120]}")
            okh, why = raw_list(g, raws, p)
            rep.oblige("H2-handles", okh, label, p.ev, why)
        # the receiver of the result is the parent's own end
        for p in positions(g, isret):
            kind, val = outcome(p.ev.deep[0])
            if kind != "ok":
                continue
            src = {y for y in subterms(val) if y.op == "hav" and any(y.a[0] is q.ev.res for q in S)}
            direct = {y for y in subterms(val) if y.op == "fld" and y.a[1] is None and y.a[0].op == "fld" and y.a[0].a[0].op == "call" and str(y.a[0].a[0].a[0]).endswith("socketpair")}
            rep.oblige("H2-result-end", False if direct & E else bool(src or direct) or None, label, p.ev, "the result is not awaited on the parent's end of the channel")
    # the other side
    g = init_graph(A, rep)
    if g is None:
        return
    R = positions(g, lambda e: e.kind == "call" and e.key in ops(A) and "recv" in str(e.name))
    rep.anchor("reception of the start-up message", R)
    for p in R:
        rt = p.ev.targs[-1] if p.ev.targs else None
        if None not in sent_types and rt is not None:
            rep.oblige("H3-same-type", {tystr(t) for t in sent_types} == {tystr(rt)}, "init", p.ev, f"the start-up message is sent as {[tystr(t) for t in sent_types]} and read as {tystr(rt)}")
    adopts = positions(g, lambda e: e.kind == "fd_adopt")
    U = positions(g, user_entry)
    numbers = {t for p in adopts for t in [p.ev.deep[0]] if not any(y.op == "app" and y.a[0] == "elem" for y in subterms(t))}
    for p in adopts:
        t = p.ev.deep[0]
        el = [y for y in subterms(t) if y.op == "app" and y.a[0] == "elem"]
        if el:
            src = el[0].a[1][0]
            why = partial(g, el[0])
            rep.oblige("H4-adopted", not why, "init", p.ev, f"not every handle of the start-up message is adopted: {why}")
            rep.oblige("H4-adopted", any(has(src, q.ev.res) for q in R) and t is el[0], "init", p.ev, f"the child adopts {show(t)[:100]} which is not a number of the start-up message")
        else:
            rep.oblige("H4-own-end", any(str(y.a[0]).split("::")[-1] in ("parse", "from_str") for y in subterms(t) if y.op in ("call", "app")) or None, "init", p.ev, f"the child takes {show(t)[:80]} for its channel end")
    # data and handles reach the deserializer in order
    for p in U:
        if str(p.ev.name) != "<value>":
            continue
        d = unref(p.ev.deep[1]) if len(p.ev.deep) > 1 else None
        if d is None or d.op != "agg":
            rep.oblige("H5-decoded", None, "init", p.ev, "decoder not resolved")
            continue
        rep.oblige("H5-data", any(has(x, q.ev.res) for x in d.a[2] for q in R), "init", p.ev, "the function is decoded from something else than the start-up message")
        hl = [x for x in d.a[2] if x.op == "agg" and isinstance(x.a[0], tuple) and x.a[0][0] == "model"]
        for x in hl:
            lst = x.a[2][0]
            order, why = list_in_order(g, lst, R)
            rep.oblige("H5-handles", order, "init", p.ev, why)
            f = facts_of(p)
    # the channel end is kept, its number passed on, and the result is the exit status
    bad = {}
    # through our own trait, or (with the nightly feature) the language's: then it is the call that is told the number or gives the status
    calls = [p for p in U if "call_object" in str(p.ev.name)] or [
        p for p in U if any(has(a, t) for a in p.ev.deep or () for t in numbers) or any(q.ev.deep and has(q.ev.deep[0], p.ev.res) for q in positions(g, lambda e: called(e, "exit")))]
    cset = {id(p.ev) for p in calls}
    own = positions(g, lambda e: e.kind == "drop" and e.name != "alias" and e.deep and any(y.op == "app" and y.a[0] == "owned" and any(has(y, t) for t in numbers) for y in subterms(e.deep[0])))
    oset = {id(p.ev) for p in own}

    def tr(s, pos):
        e = pos.ev
        if id(e) in oset:
            return True
        if s and id(e) in cset:
            bad.setdefault("x", e)
        return s
    typestate(g, False, tr)
    rep.oblige("H6-end-kept", "x" not in bad, "init", bad.get("x"), "the child's channel end is closed before its function runs: the result cannot be sent")
    rep.anchor("call of the user's function", calls)
    for p in calls:
        arg = p.ev.deep[-1]
        rep.oblige("H6-number-passed", any(has(arg, t) for t in numbers) or None if arg is not None else None, "init", p.ev, f"the function is not given the channel end to report on: {show(arg)[:80]}")
    ex = positions(g, lambda e: called(e, "exit"))
    rep.anchor("exit of the child", ex)
    for p in ex:
        c = p.ev.deep[0]
        same = any(c is q.ev.res for q in calls) or (False if c.op == "int" else None)
        if same is None and len(calls) == 1:
            from points import differ
            r = calls[0].ev.res
            if differ(mk("bin", "BitAnd", c, num(255)), mk("bin", "BitAnd", r, num(255)), {t: v for t, v in facts_of(p).items() if r in subterms(t)}, lambda t: t is r):
                same = False
        rep.oblige("H6-status", same, "init", p.ev, f"the exit status of the child is {show(c)[:80]} instead of what its function returned")


def pod_entry(f):
    return False


def from_serializer(g, t):
    """Bytes produced by the serializer: the serialized value or its header."""
    for x in subterms(t):
        if x.op == "hav" and x.a[0].op == "call" and "serialize_self_non_trivial" in str(x.a[0].a[0]):
            return True
        if x.op == "app" and x.a[0] in ("rawbytes", "rawimg"):
            return True
    return None if any(x.op in ("phi", "call") for x in subterms(t)) else False


def raw_list(g, t, pos):
    """The list holds the numbers of the serialized handles, each once, in order."""
    from paths import growth
    if t.op == "app" and t.a[0] == "new":
        return True, ""
    if t.op == "phi":
        init, back = growth(g, t)
        for v in init:
            if v is not None and not (v.op == "app" and v.a[0] == "new"):
                return None, "list of handle numbers not resolved"
        for v in back:
            if v is None or v is t:
                return None, "list of handle numbers not resolved"
            if not (v.op == "app" and v.a[0] == "add" and v.a[1][1] is t):
                return None, "list of handle numbers built in an unrecognised way: " + show(v)[:100]
            x = v.a[1][-1]
            if x.op == "app" and x.a[0] == "fdof":
                x = x.a[1][0]
            x = unref(x)
            if x.op == "app" and x.a[0] == "elem":
                idx = x.a[1][1]
            elif x.op == "ref" and x.a[1] and x.a[1][-1][0] == "i" and isinstance(x.a[1][-1][1], Term):
                idx = x.a[1][-1][1]
            else:
                return None, "element not recognised: " + show(x)[:100] + (str(x.a) if x.op == "ref" else "")
            if passes_over(g, idx, t):
                return False, "the numbers of some of the handles are not sent: the others are taken for them"
            if not forward(g, idx):
                return (False if backwards(g, idx) else None), f"the numbers of the handles are not sent in the order the handles were serialized ({show(idx)[:60]})"
        f = facts_of(pos)
        return True, ""
    if t.op == "hav" and t.a[0].op == "call" and str(t.a[0].a[0]).split("::")[-1] in REORDER:
        return False, f"the numbers of the handles are changed by {str(t.a[0].a[0]).split('::')[-1]} before they are sent: they no longer match the order the handles were encoded in"
    if t.op == "app" and t.a[0] == "changed" and t.a[1][0].op == "str" and t.a[1][0].a[0].split("::")[-1] in REORDER:
        if t.a[1][1].op == "app" and t.a[1][1].a[0] == "new":
            return True, ""          # nothing in it
        return False, f"the numbers of the handles are changed by {t.a[1][0].a[0].split('::')[-1]} before they are sent: they no longer match the order the handles were encoded in"
    return None, "list of handle numbers not resolved: " + show(t)[:100]


REORDER = {"sort", "sort_unstable", "sort_by", "sort_by_key", "sort_unstable_by", "sort_unstable_by_key", "reverse", "rotate_left", "rotate_right", "dedup",
           "retain", "swap", "swap_remove", "remove", "truncate", "pop", "clear", "split_off"}


def forward(g, idx):
    """A loop counter that starts at 0 and advances by one."""
    from paths import growth
    ph = [x for x in subterms(idx) if x.op == "phi"]
    if len(ph) != 1 or idx is not ph[0]:
        return False
    init, back = growth(g, ph[0])
    return all(v is not None and v.op == "int" and v.a[0] == 0 for v in init) and all(v is not None and v is add(ph[0], num(1)) for v in back)


def backwards(g, idx):
    from paths import growth
    from terms import _linparts
    ph = [x for x in subterms(idx) if x.op == "phi"]
    if len(ph) != 1:
        return False
    p = _linparts(idx)[1]
    return p.get(ph[0], 0) < 0 or any(v is add(ph[0], num(-1)) for v in growth(g, ph[0])[1])


def passes_over(g, idx, lst):
    """The index moves on in a loop of its own, in which nothing is added to the list."""
    from paths import growth
    if idx.op != "phi":
        return False
    at = [n for n in g.nodes if n.phis and idx in n.phis]
    if len(at) != 1 or lst in at[0].phis:
        return False
    init, back = growth(g, idx)
    return any(v is not None and v is add(idx, num(1)) for v in back) and all(v is not None and v.op == "phi" for v in init)


def list_in_order(g, t, R):
    from paths import growth
    if t.op == "app" and t.a[0] == "new":
        return True, ""
    if t.op != "phi":
        return None, "list of handles not resolved"
    init, back = growth(g, t)
    for v in back:
        if v is None or not (v.op == "app" and v.a[0] == "add" and v.a[1][1] is t):
            return None, "list of handles built in an unrecognised way"
        el = next((y for y in subterms(v.a[1][-1]) if y.op == "app" and y.a[0] == "elem"), None)
        if el is None:
            return None, "element not recognised"
        if passes_over(g, el.a[1][1], t):
            return False, "some of the handles are not given to the decoder: the others are taken for them"
        if not forward(g, el.a[1][1]):
            return (False if backwards(g, el.a[1][1]) else None), "the handles are given to the decoder in another order than they were sent"
    return True, ""


# ------------------------------------------------------------------ C12
SKIP = {"send", "recv", "spawn_blocking", "blocking_read", "blocking_write", "read", "write"}


def fallible(A, rep):
    """Every public operation that reports I/O errors, except send and recv themselves (check_wire)."""
    out = []
    for k, d in sorted(A.db.defs.items()):
        if not d.get("local") or d.get("kind") not in ("Fn", "AssocFn") or k not in A.db.bodies or d.get("vis") != "Public":
            continue
        if not str(A.db.bodies[k].file).startswith("src/") or d.get("name") in SKIP or "deserialize" in str(d.get("name")):
            continue
        if A.db.bodies[k].file.split("/")[-1] not in ("asynchronous.rs", "blocking.rs", "tokio.rs", "smol.rs"):
            continue
        o = str(d.get("output"))
        if not (d.get("asyncness") or "result::Result" in o and "io::error::Error" in o):
            continue
        lab = k.replace("crossmist::", "")
        if d.get("self_ty"):
            lab = tyname(d["self_ty"]) + "::" + d["name"]
        if any(x[0] == "Stream" for x in d.get("generics") or []):
            for n, ty, b in A.streams():
                out.append((f"{lab}<{n}>", k, A.env_for(k, Stream=ty)))
        else:
            out.append((lab, k, {}))
    rep.anchor("fallible public operations", out, 10)
    return out


OSCRATES = ("rustix", "libc", "tokio", "async_io", "async_net", "nix")


def os_result(A, e):
    """Term under which the outcome of a call into the operating system is known, and its form."""
    if e.kind not in ("call",) or e.res is None:
        return None
    if e.key in ops(A):
        return app("output", e.res), "result"
    root = (e.key or "").split("::")[0]
    nm = str(e.name).split("::")[-1]
    d = A.db.defs.get(e.key) or {}
    o = d.get("output")
    isres = o is not None and o[0] == "adt" and o[1].endswith("result::Result")
    if root in OSCRATES:
        if isres:
            return e.res, "result"
        if root == "libc" and o is not None and o[0] == "int":
            return e.res, "int"
        return None
    if root == "std" and isres and any(x in (e.key or "") for x in ("::os::", "::net::", "::fs::")) and nm not in ("lock",):
        return e.res, "result"
    if isres and nm in ("try_into", "try_from"):
        return e.res, "result"
    return None


def regardless(f, t, panics, e):
    """Does the same panic also happen, all else being equal, when operation t has not failed?"""
    rest = {x: v for x, v in f.items() if t not in subterms(x)}
    for q in panics:
        if q.ev.name != e.name or q.ev.where != e.where:
            continue
        h = facts_of(q)
        if h.get(app("variant", t)) == 1:
            continue
        if all(rest.get(x, v) == v for x, v in h.items() if t not in subterms(x)):
            return True
    return False


def check_errors(A, rep):
    n = 0
    for label, k, env in fallible(A, rep):
        g = graph(A, rep, k, env, label)
        if g is None:
            continue
        res = {}
        for e in all_events(g):
            r = os_result(A, e)
            if r is not None:
                res[id(e)] = (r[0], r[1], e)
        n += len(res)
        bad, good = {}, set()
        panics = [p for p in ends(g) if p.ev.kind != "ret"]

        def failed(t, form, f):
            """1 failed, 0 succeeded, None unknown"""
            if form == "result":
                v = f.get(app("variant", t))
                return v if isinstance(v, int) else None
            a = possible(f, lambda x: -1 if x is t else None, {t})
            b = possible(f, lambda x: 77 if x is t else None, {t})
            mention = any(t in subterms(x) for x in f)
            if not mention:
                return None
            return 1 if b is False and a is not False else 0 if a is False and b is not False else None

        def trans(s, pos):
            e = pos.ev
            if id(e) in res:
                return s | {id(e)}
            if e.kind in ("ret", "panic", "diverge"):
                f = facts_of(pos)
                for i in s:
                    t, form, src = res[i]
                    v = failed(t, form, f)
                    nm = str(src.name)
                    if e.kind == "ret":
                        kind, val = outcome(e.deep[0])
                        if kind == "ok" and v != 0:
                            if len({id(x[2]) for x in res.values() if x[0] is t}) > 1 and v is None:
                                pass
                            bad.setdefault((nm, "ignored" if v is None else "swallowed"), e)
                        elif kind == "err" and v == 1:
                            good.add(nm)
                            from check_wire import err_class
                            yes, no = err_class(f, t)
                            if called(src, "waitpid", "wait4") and "interrupted" not in no:
                                bad.setdefault((nm, "interrupted"), e)
                    elif v == 1 and not regardless(f, t, panics, e):
                        bad.setdefault((nm, "panic"), e)
            return s
        try:
            typestate(g, frozenset(), trans)
        except Undecided as x:
            rep.undecided.append(f"{label}: {x}")
            continue
        text = dict(ignored="its failure is not examined", swallowed="its failure is reported as success", panic="its failure panics", interrupted="an interruption by a signal makes the operation fail")
        for (nm, what), e in bad.items():
            rep.oblige("F1-errors-reach-caller", False, f"{label}:{nm}", e, f"{label} calls {nm}: {text[what]}")
        for nm in {str(x[2].name) for x in res.values()}:
            if not any(b[0] == nm for b in bad):
                rep.oblige("F1-errors-reach-caller", True, f"{label}:{nm}", None)
    rep.anchor("calls into the operating system", n)


# ------------------------------------------------------------------ entry point
def check_request(A, rep, prop):
    """Duplex::request: end of stream while waiting for the answer is an error, and errors are passed on."""
    for label, k, env in methods(A, "request", ["blocking::Duplex", "asynchronous::Duplex"]):
        g = graph(A, rep, k, env, label)
        if g is None:
            continue
        S = [e for e in all_events(g) if e.kind == "call" and e.key in ops(A) and "send" in str(e.name)]
        R = [e for e in all_events(g) if e.kind == "call" and e.key in ops(A) and "recv" in str(e.name)]
        rep.oblige("Q0-request-shape", bool(S) and bool(R), label, None, "a request does not send its value and wait for an answer")
        so, ro = {app("output", e.res) for e in S}, {app("output", e.res) for e in R}
        for sv in ("ok", "err"):
            for rv in ("value", "nothing", "error"):
                if sv == "err" and rv != "value":
                    continue

                def sc(t):
                    if t in so:
                        return ("agg", 0 if sv == "ok" else 1, (None,))
                    if t in ro:
                        return dict(value=("agg", 0, (SOME(),)), nothing=("agg", 0, (NONE,)), error=("agg", 1, (None,)))[rv]
                    return None
                for p in ends(g):
                    pos = possible(facts_of(p), sc, so | ro)
                    if pos is False:
                        continue
                    if sv == "err" and any(r in subterms(t) for t in facts_of(p) for r in ro):
                        continue
                    if p.ev.kind != "ret":
                        rep.oblige("Q1-request", None if pos is None or not any(x in subterms(t) for t in facts_of(p) for x in so | ro) else False, label, p.ev, f"a request may panic (send {sv}, answer {rv})")
                        continue
                    kind, val = outcome(p.ev.deep[0])
                    want = "ok" if sv == "ok" and rv == "value" else "err"
                    ok = kind == want
                    if ok and kind == "ok":
                        ok = any(val is mk("fld", mk("fld", o, 0, 0), 1, 0) for o in ro)
                    rep.oblige("Q1-request", ok if ok or pos else None, label, p.ev, f"send {sv}, answer {rv}: request returns {kind} {show(val)[:80]}", key=f"Q1-request:{label}:{sv}:{rv}")


def check_sockets(A, rep, prop):
    """The sockets channels are made of: what kind they are, and whether operations on them wait."""
    gs = []
    for label, k, env in all_roots(A, rep):
        g = graph(A, rep, k, env, label)
        if g is not None:
            gs.append((label, g, "Blocking" in label or "<" not in label))
    rep.anchor("channel constructors", gs, 2)
    # the other end of a child's channel is used by blocking operations whatever the parent's flavour
    gs += [(l, g, True) for l, k, g, C in spawn_graphs(A, rep)]
    made = 0
    for label, g, waits in gs:
        for e in all_events(g):
            if e.kind != "call" or not e.deep:
                continue
            nm, own = str(e.name).split("::")[-1], (e.key or "").split("::")[0]
            if nm in ("socketpair", "socketpair_with") and own in ("rustix", "libc", "nix") and len(e.deep) > 2:
                ty, fl = flagval(e.deep[1]), flagval(e.deep[2]) if own != "libc" else flagval(e.deep[1])
                made += 1
                if prop == "C08":
                    rep.oblige("S8-message-socket", None if ty is None else ty & 0xf == 5, label, e, f"the channel is a socket of type {ty if ty is None else ty & 0xf}, which does not keep packets apart (SOCK_SEQPACKET is 5)")
                if prop == "C11" and waits:
                    rep.oblige("B6-socket-waits", None if fl is None else not fl & 0x800, label, e, "a socket used by blocking operations is created non-blocking: they fail instead of waiting")
            elif called(e, "pair") and ("UnixStream" in str(e.name) or "UnixStream" in str(e.key)):
                made += 1
                if prop == "C08":
                    rep.oblige("S8-message-socket", False, label, e, "the channel is a stream socket, which does not keep packets apart")
            elif prop == "C11" and waits and "Blocking" in label:
                on = nonblock_value(e)
                if on is not None:
                    rep.oblige("B6-socket-waits", None if on == "unknown" else not on, label, e, "a socket used by blocking operations is made non-blocking: they fail instead of waiting")
    rep.anchor("socket pair creations", made)


def nonblock_value(e):
    """Whether an event makes a descriptor non-blocking: True, False, 'unknown', or None if it is no such event."""
    if called(e, "fcntl_setfl"):
        v = flagval(e.deep[1])
        return "unknown" if v is None else bool(v & 0x800)
    if called(e, "ioctl_fionbio", "set_nonblocking"):
        x = e.deep[-1]
        return bool(x.a[0]) if x.op == "int" else "unknown"
    return None


def check(A, rep, prop, tier):
    if prop in ("C08", "C11"):
        check_sockets(A, rep, prop)
    elif prop == "C12":
        check_errors(A, rep)
        check_request(A, rep, prop)
    elif prop == "C10":
        check_request(A, rep, prop)
    elif prop == "C13":
        check_cloexec(A, rep)
    elif prop == "C14":
        check_child(A, rep)
    elif prop == "C15":
        check_parent_end(A, rep)
    elif prop == "C16":
        check_kill(A, rep)
    elif prop == "C17":
        check_join(A, rep)
    elif prop == "C18":
        check_init(A, rep)
    elif prop == "C19":
        check_handshake(A, rep)
