"""What happens when objects are dropped (C33): types reachable from public ones, and what runs when they are dropped.

The drop glue of a type is its own Drop implementation followed by those of its fields. Fields are followed through the type-checked
definitions; every Drop implementation of the crate found that way is analysed like any other function, with all that it calls.
"""
from common import *
from check_reject import public
from check_effects import site

RULES = {"C33": {
    "D1-inert": "What runs when an object of the library is dropped releases descriptors and memory and does nothing else: it does not wait, lock, communicate, signal, reap, touch files or end the process.",
    "D2-copies": "No operation ends or changes a socket for all its holders: the copies of an end in other processes keep working.",
    "D3-released": "Dropping an end of a channel or a child closes its descriptor.",
}}
EXPLAIN = {"C33": "all fields, transitively, of every public type; every Drop implementation of the crate among them with everything it calls; every external call site of the crate"}

SIGNALS = {"kill", "kill_process", "killpg", "tgkill", "tkill", "pidfd_send_signal", "raise", "sigqueue", "start_kill", "kill_process_group"}
WAITS = {"wait", "waitpid", "waitid", "wait4", "try_wait", "wait_with_output", "wait3", "pidfd_open"}
BLOCKS = {"sleep", "nanosleep", "usleep", "park", "park_timeout", "block_on", "poll", "ppoll", "select", "epoll_wait", "futex", "yield_now", "blocking_lock", "lock", "try_lock", "blocking_recv", "blocking_send"}
TALKS = {"sendmsg", "recvmsg", "send", "recv", "sendto", "recvfrom", "write", "write_all", "read", "read_exact", "shutdown", "connect", "sendmmsg", "recvmmsg", "writev", "readv", "sendfile", "splice"}
FILES = {"unlink", "unlinkat", "remove_file", "remove_dir", "remove_dir_all", "ftruncate", "set_len", "fsync", "sync_all", "sync_data", "flock", "lseek", "seek", "rename"}
ENDS = {"exit", "abort", "_exit", "quick_exit", "exit_group"}
KINDS = [(SIGNALS, "sends a signal"), (WAITS, "waits for a process"), (BLOCKS, "may block"), (TALKS, "uses the connection"), (FILES, "changes files"), (ENDS, "ends the process")]
OUTSIDE = ("libc", "rustix", "std", "tokio", "async_io", "smol", "futures_lite", "nix", "parking_lot", "mio", "socket2")
# what concerns all holders of a socket, beyond messages
FOR_ALL = {"shutdown": "ends the connection for every holder of the socket", "set_read_timeout": "makes receiving fail for every holder of the socket",
           "set_write_timeout": "makes sending fail for every holder of the socket", "set_socket_timeout": "makes transfers fail for every holder of the socket",
           "set_timeout": "makes transfers fail for every holder of the socket"}
OWNERS = ("OwnedFd", "UnixStream", "UnixListener", "UnixDatagram", "File", "TcpStream", "OwnedHandle", "AsyncFd", "Async", "Socket")
# halves that shut the socket down when they are dropped
HALVES = ("OwnedWriteHalf",)
KEEPS = ("ManuallyDrop", "MaybeUninit", "PhantomData", "NonNull")


def parts(db, t, env=(), path=(), seen=None):
    """(type, path of fields) of everything that is dropped with a value of the type; fields of the crate's types are followed."""
    if not isinstance(t, tuple) or not t:
        return
    if t[0] in ("array", "slice"):
        yield from parts(db, t[1], env, path, seen)
    elif t[0] == "tuple":
        for x in t[1]:
            yield from parts(db, x, env, path, seen)
    elif t[0] == "param":
        yield t, path
        if t[1] in dict(env):
            yield from parts(db, dict(env)[t[1]], (), path, seen)
    elif t[0] == "adt":
        last = t[1].split("::")[-1]
        if last in KEEPS:
            yield ("kept", t[1]), path
            return
        seen = seen or frozenset()
        if (t, env) in seen:
            return
        yield t, path
        a = db.adts.get(t[1])
        if a and a.get("local"):
            gs = [g for g in a["generics"]]
            here = tuple((g[0], subst(x, dict(env))) for g, x in zip(gs, t[2]))
            for v in a["variants"]:
                for f in v["fields"]:
                    yield from parts(db, f[1], here, path + (f[0],), seen | {(t, env)})
        else:
            for x in t[2]:
                yield from parts(db, x, env, path, seen)


def subst(t, env):
    if isinstance(t, tuple) and t and t[0] == "param" and t[1] in env:
        return env[t[1]]
    if isinstance(t, tuple):
        return tuple(subst(x, env) for x in t)
    return t


def drops(db):
    """Drop implementations of the crate: adt -> key of drop."""
    out = {}
    for tr, ims in db.impls_by_trait.items():
        if tr.split("::")[-1] != "Drop" or tr.split("::")[0] != "core":
            continue
        for im in ims:
            t = im["args"][0]
            if isinstance(t, tuple) and t[0] == "adt":
                for x in im["items"]:
                    if x[0] == "drop":
                        out[t[1]] = x[1]
    return out


def what(e):
    """What an event does besides releasing, or None."""
    if e.kind == "lock":
        return "takes a lock"
    if e.kind in ("suspend",):
        return "may suspend"
    if e.kind not in ("call", "io", "diverge"):
        return None
    k = str(e.key or e.name)
    seg = k.split("::")
    if seg[0] not in OUTSIDE:
        return None
    for names, w in KINDS:
        if seg[-1] in names:
            return w
    return None


def check(A, rep, prop, tier):
    db = A.db
    dl = drops(db)
    bodies = [k for k, b in db.bodies.items() if b.crate == "crossmist"]
    pub = [k for k, a in sorted(db.adts.items()) if a.get("local") and k.startswith("crossmist::") and db.defs.get(k) and public(db, k)]
    rep.anchor("public types", len(pub), 12)
    reach = {}
    ends = 0
    for k in pub:
        a = db.adts[k]
        t = ("adt", k, tuple(("param", g[0], g[1]) for g in a["generics"]))
        owner = kept = streams = False
        for x, path in parts(db, t):
            if x[0] == "kept":
                kept = kept or (None if x[1].split("::")[-1] == "PhantomData" else (x[1], path))
                continue
            if x[0] == "param":
                streams = streams or x[1] == "Stream"
                continue
            if x[1] in dl:
                reach.setdefault(x[1], (k, path))
            if x[1].split("::")[-1] in OWNERS and not (db.adts.get(x[1]) or {}).get("local"):
                owner = True
        name = k.split("::")[-1]
        if name in ("Sender", "Receiver", "Duplex", "Child"):
            ends += 1
            here = site_of(db, k)
            ok = True if (owner or streams) and not kept else False if kept or not (owner or streams) else None
            if (db.adts[k].get("has_dtor")):
                ok = ok or None      # its own implementation may close it
            rep.oblige("D3-released", ok, k, here,
                       f"dropping a {k.replace('crossmist::', '')} " + (f"does not drop what its field {'.'.join(kept[1])} holds" if kept else "closes no descriptor: it owns none"))
    for tr, ims in db.impls_by_trait.items():
        # the back ends, which are in the place of the ends' type parameter
        if tr.split("::")[-1] == "AsyncStream" and tr.split("::")[0] == "crossmist":
            for im in ims:
                t = im["args"][0]
                owner = kept = None
                for x, path in parts(db, t):
                    if x[0] == "kept":
                        kept = (x[1], path)
                    elif x[0] == "adt":
                        if x[1] in dl:
                            reach.setdefault(x[1], (t[1], path))
                        if x[1].split("::")[-1] in HALVES:
                            rep.oblige("D2-copies", False, t[1], site_of(db, t[1]), f"dropping a {tystr(x)} ends the connection for every holder of the socket, also for processes that the end was sent to")
                        if x[1].split("::")[-1] in OWNERS + HALVES and not (db.adts.get(x[1]) or {}).get("local"):
                            owner = True
                ok = True if owner and not kept else False
                if not ok and db.adts.get(t[1], {}).get("has_dtor"):
                    ok = None
                ends += 1
                rep.oblige("D3-released", ok, t[1], site_of(db, t[1]), f"dropping an end of a channel does not close its descriptor: {tystr(t)} " + (f"keeps it in a {kept[0]}" if kept else "owns none"))
    rep.anchor("types that own a descriptor", ends, 8)
    for adt, (of, path) in sorted(reach.items()):
        b = dl[adt]
        if b not in db.bodies:
            rep.undecided.append(f"{adt}: what runs when it is dropped has no body")
            continue
        env = {g[1]: ("param", g[0], g[1]) for g in db.adts[adt]["generics"]}
        g = A.run(b)
        seen = set()
        bad = []
        from check_proc import all_events
        for e in all_events(g):
            w = what(e)
            if w and (w, str(e.name)) not in seen:
                seen.add((w, str(e.name)))
                bad.append((w, e))
        who = of.replace("crossmist::", "")
        if not bad:
            rep.oblige("D1-inert", None if g.incomplete else True, adt)
        for w, e in bad:
            rep.oblige("D1-inert", False, f"{adt}:{e.name}", e, f"dropping a {who} ({'.'.join(path) or 'itself'}) runs Drop of {adt.split('::')[-1]}, which {w}: {e.name}", key=f"D1-inert:{adt}:{w}")
    rep.oblige("D1-inert", True, f"{len(pub)} public types, {len(reach)} with an implementation of Drop of their own")
    n = 0
    for k in bodies:
        b = db.bodies[k]
        names = {blk["t"][1][1].split("::")[-1] for blk in b.blocks if blk["t"][0] == "call" and blk["t"][1][0] == "fn"}
        for blk in b.blocks:
            t = blk["t"]
            if t[0] != "call" or t[1][0] != "fn" or t[1][1].split("::")[0] not in OUTSIDE:
                continue
            n += 1
            last = t[1][1].split("::")[-1]
            if last in FOR_ALL:
                # a pair that is being made has no other holders yet
                fresh = names & {"socketpair", "pair"}
                rep.oblige("D2-copies", None if fresh else False, f"{k}:{last}", site(b, t, t[1][1]), f"{db.short(t[1][1])} {FOR_ALL[last]}, also for processes that the end was sent to", key=f"D2-copies:{last}:{k}")
    rep.oblige("D2-copies", True, f"{n} external call sites")
    rep.anchor("external call sites", n, 25 if A.config == "full" else 15)


class site_of:
    """Place of a type, for the report."""

    def __init__(self, db, k):
        d = db.defs.get(k) or {}
        self.kind, self.name, self.key, self.line, self.file = "type", k, k, d.get("line"), d.get("file")
        self.args = self.deep = self.res = self.facts = None
        self.ctx = self.bb = None
        self.where = k
