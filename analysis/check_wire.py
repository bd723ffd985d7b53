"""Channel protocol on SEQPACKET sockets: framing (C08), resumption (C09), end of stream (C10), blocking
discipline (C11) and error reporting (C12), decided on the fully inlined send and receive operations."""
from common import *
from paths import positions, steps, growth
from lin import le, eq, truth, with_true
from terms import _linparts

WOULDBLOCK, INTERRUPTED = 13, 35
DONTWAIT = 0x40
CMSG_CLOEXEC = 0x40000000
CTRUNC = 8
SCM_MAX_FD = 253
ENDS = ("ret", "panic", "diverge")


# ------------------------------------------------------------------ reading terms
def unref(t):
    while t is not None and t.op == "&":
        t = t.a[0]
    return t


def slice_of(t):
    """(base, start, end) of a byte range."""
    t = unref(t)
    if t is None:
        return None
    if t.op == "app" and t.a[0] == "rawsub":
        return t.a[1]
    if t.op == "app" and t.a[0] in ("sub", "as_slice") and len(t.a[1]) == 3:
        return t.a[1]
    if t.op == "app" and t.a[0] == "addr_of":
        t = t.a[1][0]
    return t, num(0), length(t)


def length(t):
    t = unref(t)
    if t.op == "agg" and t.a[0] == "array":
        return num(len(t.a[2]))
    if t.op == "app":
        if t.a[0] == "rawimg":
            return t.a[1][2]
        if t.a[0] == "new":
            return num(0)
        if t.a[0] in ("resize", "truncate"):
            return t.a[1][1]
        if t.a[0] in ("sub", "rawsub"):
            return sub(t.a[1][2], t.a[1][1])
        if t.a[0] == "filled":
            return length(t.a[1][0])
    if t.op == "upd":
        return length(t.a[0])
    return app("len", t)


def iovs(t):
    t = unref(t)
    if t is not None and t.op == "app" and t.a[0] == "addr_of":
        t = t.a[1][0]
    if t is None or t.op != "agg" or t.a[0] not in ("array",):
        return None
    out = []
    for x in t.a[2]:
        if x.op == "agg" and isinstance(x.a[0], tuple) and x.a[0][0] == "adt" and "IoSlice" in x.a[0][1]:
            out.append(x.a[2][0])
        else:
            return None
    return out


def one_byte(t):
    """The single byte a reference points to, or None."""
    t = unref(t)
    if t.op == "app" and t.a[0] == "addr_of":
        t = t.a[1][0]
    if t.op == "agg" and t.a[0] == "array" and len(t.a[2]) == 1:
        return t.a[2][0]
    if t.op in ("int", "bin", "un"):
        return t
    return None


def flagbits(t):
    """Known bits of a flags value: (set, may be others)."""
    if t.op == "int":
        return t.a[0], False
    if t.op == "call" and t.a[0].endswith("::empty"):
        return 0, False
    if t.op == "call" and t.a[0] in ("BitOr::bitor",) or t.op == "call" and t.a[0].endswith(("::union", "::bitor")):
        a, ua = flagbits(t.a[1][0])
        b, ub = flagbits(t.a[1][1])
        return a | b, ua or ub
    if t.op == "bin" and t.a[0] == "BitOr":
        a, ua = flagbits(t.a[1])
        b, ub = flagbits(t.a[2])
        return a | b, ua or ub
    if t.op == "agg" and len(t.a[2]) == 1:
        return flagbits(t.a[2][0])
    return 0, True


def pushed(cm):
    """(space, [descriptor list terms]) of a control buffer value."""
    cm = unref(cm)
    if cm is None or cm.op != "agg" or cm.a[0] != ("model", "cmsgbuf"):
        return None
    sp, msgs = cm.a[2]
    if msgs.op != "agg":
        return None
    out = []
    for m in msgs.a[2]:
        if m.op == "agg" and m.a[2]:
            out.append(m.a[2][0])
        else:
            return None
    return sp, out


def facts_of(pos):
    f = pos.ev.facts
    if f is None:
        f = dict(pos.node.state.facts)
        if pos.edge is not None:
            f.update(pos.edge.facts)
    return f


def is_variant(t, adt):
    return t.op == "agg" and isinstance(t.a[0], tuple) and t.a[0][0] == "adt" and t.a[0][1].split("::")[-1] == adt


def outcome(t):
    """('ok', payload) / ('err', error) / (None, t) of a Result value."""
    if t is not None and is_variant(t, "Result"):
        return ("ok", "err")[t.a[1]], t.a[2][0]
    return None, t


def err_class(rfacts, res):
    """What the path knows about the failure of a call: set of 'wouldblock', 'interrupted', or empty;
    and what it excludes."""
    e = mk("fld", res, 1, 0)
    yes, no = set(), set()
    for t, v in rfacts.items():
        if e not in subterms(t):
            continue
        if t.op == "app" and t.a[0] == "variant" or t.op == "call" and "variant" in t.a[0] or t.op in ("variant", "discr"):
            if v == WOULDBLOCK:
                yes.add("wouldblock")
            elif v == INTERRUPTED:
                yes.add("interrupted")
            elif isinstance(v, frozenset):
                if WOULDBLOCK in v:
                    no.add("wouldblock")
                if INTERRUPTED in v:
                    no.add("interrupted")
        elif t.op == "bin" and t.a[0] == "Eq":
            n = errno_of(t.a[1]) or errno_of(t.a[2])
            c = {11: "wouldblock", 4: "interrupted"}.get(n)
            if c:
                (yes if v == 1 else no).add(c)
        elif errno_const(v) is not None:
            c = {11: "wouldblock", 4: "interrupted"}.get(errno_const(v))
            if c:
                yes.add(c)
        elif isinstance(v, frozenset):
            no |= {{11: "wouldblock", 4: "interrupted"}[errno_const(x)] for x in v if errno_const(x) in (4, 11)}
    return yes, no


def errno_const(v):
    if isinstance(v, int):
        if v in (4, 11):
            return v
        if 65535 - 4096 < v < 65536:
            return 65536 - v
    return None


def errno_of(t):
    if t.op == "int":
        n = t.a[0]
        return n if n < 4096 else 65536 - n
    if t.op == "agg" and len(t.a[2]) == 1:
        return errno_of(t.a[2][0])
    return None


def ok_fact(rfacts, res):
    """0: the call succeeded, 1: it failed, None: not known."""
    for t, v in rfacts.items():
        if isinstance(v, int) and (t.op in ("variant", "discr") and t.a[0] is res or t.op in ("call", "app") and t.a[0] == "variant" and t.a[1] == (res,)):
            return v
    return None


# ------------------------------------------------------------------ roots
class Root:
    def __init__(self, label, key, env, blocking, way, graph):
        self.label, self.key, self.env, self.blocking, self.way, self.g = label, key, env, blocking, way, graph


def roots(A, rep=None):
    """Every public send and receive operation, per back end."""
    out, missing = [], []
    for adt, ops in (("blocking::Sender", ["send"]), ("blocking::Receiver", ["recv"]), ("blocking::Duplex", ["send", "recv"]),
                     ("asynchronous::Sender", ["send"]), ("asynchronous::Receiver", ["recv"]), ("asynchronous::Duplex", ["send", "recv"])):
        for op in ops:
            k = A.method(adt, op)
            if k is None:
                missing.append(f"{adt}::{op}")
                continue
            if adt.startswith("blocking"):
                out.append((f"{adt}::{op}", k, {}, True, op))
            else:
                for name, ty, blk in A.streams():
                    out.append((f"{adt}<{name}>::{op}", k, A.env_for(k, Stream=ty), bool(blk), op))
    return out, missing


def graphs(A, rep, ways=("send", "recv")):
    rs, missing = roots(A)
    for m in missing:
        rep.anchor(m, 0)
    n = 0
    for label, k, env, blk, way in rs:
        if way not in ways:
            continue
        n += 1
        try:
            g = A.run(k, env=env)
        except Undecided as e:
            rep.undecided.append(f"{label}: {e}")
            continue
        if g.incomplete:
            rep.undecided.append(f"{label}: {g.incomplete[:3]}")
        yield Root(label, k, env, blk, way, g)
    rep.anchor("channel operations analysed", n, len([r for r in rs if r[4] in ways]) or 1)


SYS = {"send": "sendmsg", "recv": "recvmsg"}


def site_stop(name):
    return lambda e: e.kind in ENDS or e.name == name


class Site:
    """A message system call on one path."""

    def __init__(self, pos, way):
        self.pos, self.ev = pos, pos.ev
        ev = pos.ev
        self.res = ev.res
        self.sock = ev.deep[0]
        self.flags = ev.deep[3]
        self.facts = facts_of(pos)
        v = iovs(ev.deep[1])
        self.iov = v
        self.ok = v is not None and len(v) == 2
        if self.ok:
            self.marker = one_byte(v[0])
            sl = slice_of(v[1])
            self.base, self.s, self.e = sl if sl else (None, None, None)
            self.len = length(self.base) if self.base is not None else None
        p = pushed(ev.deep[2])
        self.space = self.fds = None
        self.npush = None
        if p is not None:
            self.space = p[0]
            self.npush = len(p[1])
            if p[1]:
                self.fds = slice_of(p[1][0])
                self.fds = (self.fds[0], self.fds[1], self.fds[2])
                self.fdslen = length(self.fds[0])

    def cons(self, t):
        """Rename: the number of bytes a successful call transfers is what was asked for."""
        n = mk("fld", self.res, 0, 0)
        full = add(num(1), sub(self.e, self.s))
        return rewrite(t, lambda x: full if x is n else None)


def subject(r, what):
    return f"{r.label}: {what}"


def dead_panic(ev, facts):
    """A panic that the facts exclude: the control buffer always has room for the descriptors."""
    for t, v in facts.items():
        if t.op in ("app", "call") and t.a[0] == "cmsg_fits" and v == 0:
            sp, old, msg = t.a[1]
            if old.op != "agg" or old.a[2]:
                return False
            return bool(cmsg_ok(sp, msg, {k: w for k, w in facts.items() if k is not t}))
    return False


def cmsg_ok(sp, lst, facts):
    """Does CMSG_SPACE(4 * number of descriptors) fit?"""
    if sp.op != "int":
        return None
    cap = max(0, (sp.a[0] - 16) // 4)
    cap -= cap % 2
    if lst.op == "agg" and lst.a[2]:
        sl = slice_of(lst.a[2][0])
        return bool(sl and (le(sub(sl[2], sl[1]), num(cap), facts) or eq(length(sl[0]), num(0), facts)))
    return None


# ------------------------------------------------------------------ send
def value_arg(g, name):
    """The parameter holding the value to send."""
    return None


def user_code(e):
    """Events in which code of the value's own type runs."""
    if e.kind == "call" and e.key and e.key.endswith("NonTrivialObject::serialize_self_non_trivial"):
        return ("user", e)
    return None


def check_send(A, r, ob):
    """ob(prop, rule, ok, subject, ev, detail)"""
    g = r.g
    name = "sendmsg"
    P = positions(g, lambda e: e.name == name and e.kind == "call")
    if not P:
        ob("C08", "S0-sites", False, r.label, None, "no message is ever sent")
        return
    stop = site_stop(name)
    sites = {}

    def site(pos):
        k = id(pos.ev)
        if k not in sites:
            sites[k] = Site(pos, "send")
        return sites[k]

    valterms = serialized_values(g)
    for p in [None] + P:
        st0 = site(p) if p else None
        if p and not st0.ok:
            ob("C08", "S0-shape", None, r.label, p.ev, "unrecognised message layout")
            continue
        watch = {st0.res} if p else set()
        for s in steps(g, p, stop, watch=watch, note=user_code):
            ev = s.stop.ev
            f = facts_of(s.stop)
            if s.flags:
                f = {**f, **s.flags}
            okv = ok_fact(s.rfacts, st0.res) if p else None
            if p and okv != 1:
                ob("C30", "M4-serialized-first", not s.seen, r.label, s.seen[0][1] if s.seen else p.ev, "user code serializes the value after part of the message was sent: if it panics the peer is left in the middle of a message")
            if ev.kind in ("panic", "diverge"):
                if dead_panic(ev, f):
                    ob("C08", "S8-no-panic", True, r.label + ": control buffer has room", ev, "")
                else:
                    ob("C08", "S8-no-panic", panic_verdict(okv, ev, f), r.label, ev, f"sending may panic ({ev.name})")
                continue
            if ev.kind == "ret":
                kind, val = outcome(ev.deep[0])
                if p is None:
                    ob("C08", "S3-ok-after-last", kind == "err", r.label, ev, "returns success without sending the message")
                    continue
                if okv == 1:
                    yes, no = err_class(s.rfacts, st0.res)
                    e = mk("fld", st0.res, 1, 0)
                    if not r.blocking:
                        ob("C11", "B5-waits", "wouldblock" in no, r.label, ev, "when the channel is full the operation fails instead of waiting")
                    ob("C12", "E1-send-error-returned", kind == "err" and e in subterms(val), r.label, ev,
                       "a failed sendmsg does not make the operation fail with that error: " + show(ev.deep[0])[:200])
                    ob("C12", "E2-send-eintr", "interrupted" in no or not r.blocking or "interrupted" not in yes and excluded_upstream(s, st0.res), r.label, ev,
                       "an interrupted sendmsg is reported to the caller instead of being retried")
                elif kind == "ok":
                    m = st0.marker
                    t = truth(m, with_true(dict(f), m)) if m is not None and m.op != "int" else (m.a[0] if m is not None else None)
                    mk_ok = None
                    if m is not None and m.op == "int":
                        mk_ok = m.a[0] == 1
                    elif m is not None:
                        tv = truth(m, f)
                        mk_ok = bool(tv) if tv is not None else None
                    ob("C08", "S3-ok-after-last", mk_ok, r.label, ev, f"success is reported although the last packet may not carry the end marker ({show(m)[:120] if m is not None else '?'})")
                elif kind == "err":
                    ob("C12", "E3-send-spurious-error", None, r.label, ev, "error after a successful sendmsg: " + show(val)[:200])
                continue
            # another message
            s1 = site(s.stop)
            if not s1.ok:
                continue
            b1, e1s, e1e = s.at_stop(s1.base), s.at_stop(s1.s), s.at_stop(s1.e)
            if p is None:
                ob("C08", "S1-start", eq(e1s, num(0), f), r.label, ev, f"the first packet starts at {show(e1s)[:100]}")
                base_ok, why = whole_value(b1, e1s, f, valterms, r)
                ob("C08", "S1-value", base_ok, r.label, ev, why)
                if s1.fds is not None:
                    fs = s.at_stop(s1.fds[1])
                    ob("C08", "S1-fds-start", eq(fs, num(0), f), r.label, ev, f"the first packet carries handles from index {show(fs)[:100]}")
                continue
            if okv == 1:
                yes, no = err_class(s.rfacts, st0.res)
                retry = bool(yes)
                ob("C12", "E1-send-error-returned", retry, r.label, ev, "after a failed sendmsg the operation goes on without reporting the error")
                same = eq(e1s, st0.s, f) and b1 is st0.base
                ob("C09", "W1-resume-position", bool(same), r.label, ev, f"after an interrupted attempt at [{show(st0.s)[:60]}, {show(st0.e)[:60]}) the next packet starts at {show(e1s)[:100]}")
                if s1.fds is not None and st0.fds is not None:
                    same = eq(s.at_stop(s1.fds[1]), st0.fds[1], f) and s.at_stop(s1.fds[0]) is st0.fds[0]
                    ob("C09", "W1-resume-handles", bool(same), r.label, ev, f"after an attempt that sent nothing the next packet carries handles from {show(s.at_stop(s1.fds[1]))[:100]} instead of {show(st0.fds[1])[:60]}")
                continue
            # after success
            ns = st0.cons(e1s)
            ob("C08", "S2-next-position", bool(eq(ns, st0.e, f)), r.label, ev, f"a packet covering [{show(st0.s)[:60]}, {show(st0.e)[:60]}) is followed by one starting at {show(ns)[:120]}")
            ob("C08", "S2-same-value", b1 is st0.base, r.label, ev, "the packets of one message come from different buffers")
            ob("C08", "S2-same-socket", s.at_stop(s1.sock) is st0.sock, r.label, ev, "the packets of one message go to different sockets")
            if st0.fds is not None and s1.fds is not None:
                fs = st0.cons(s.at_stop(s1.fds[1]))
                ob("C08", "S2-next-handles", bool(eq(fs, st0.fds[2], f)) or eq(st0.fdslen, num(0), f), r.label, ev, f"handles [{show(st0.fds[1])[:60]}, {show(st0.fds[2])[:60]}) are followed by those from {show(fs)[:120]}")
            m = st0.marker
            if m is not None:
                tv = truth(m, s.rfacts | f) if m.op != "int" else m.a[0]
                ob("C08", "S3-stop-after-last", tv != 1, r.label, ev, "another packet follows the one with the end marker")
    # per site
    for p in P:
        st = site(p)
        if not st.ok:
            continue
        f = st.facts
        m = st.marker
        if m is None:
            ob("C08", "S0-shape", None, r.label, p.ev, "the marker is not a single byte")
            continue
        val = m.a[0] if m.op == "int" else truth(m, f)
        ft = f if m.op == "int" else with_true(f, m)
        if val != 0:
            done = eq(st.e, st.len, ft)
            ob("C08", "S4-marker-data", bool(done), r.label, p.ev, f"the end marker is set while the packet ends at {show(st.e)[:120]} of {show(st.len)[:100]}")
            if st.fds is not None:
                done = eq(st.fds[2], st.fdslen, ft)
                ob("C08", "S4-marker-handles", bool(done), r.label, p.ev, f"the end marker is set while handles up to {show(st.fds[2])[:120]} of {show(st.fdslen)[:100]} were sent")
        if m.op == "int" and m.a[0] not in (0, 1):
            ob("C08", "S4-marker-value", False, r.label, p.ev, f"marker byte {m.a[0]} has no meaning to the receiver")
        ob("C08", "S6-in-range", bool(le(st.e, st.len, f)), r.label, p.ev, f"packet end {show(st.e)[:100]} beyond the data {show(st.len)[:80]}")
        if st.npush == 0 and not pod(f):
            ob("C08", "S7-handles-attached", False, r.label, p.ev, "a packet is sent without attaching the handles of the message")
        if st.fds is not None:
            n = sub(st.fds[2], st.fds[1])
            ob("C08", "S6-handles-limit", bool(le(n, num(SCM_MAX_FD), f)) or eq(st.fdslen, num(0), f), r.label, p.ev, f"a packet may carry more than {SCM_MAX_FD} handles, which the kernel rejects ({show(n)[:120]})")
            bad = handles_of_value(st.fds[0], valterms)
            ob("C08", "S1-handles", bad, r.label, p.ev, f"the handles sent are not those collected from the value: {show(st.fds[0])[:120]}")
        k, unk = flagbits(st.flags)
        if not unk:
            ob("C11", "B1-flags", bool(k & DONTWAIT) != r.blocking, r.label, p.ev, ("a blocking channel uses MSG_DONTWAIT" if r.blocking else "a non-blocking channel calls sendmsg without MSG_DONTWAIT, stalling the whole thread"))
        else:
            w = wrong_round(g, st.flags, r.blocking)
            ob("C11", "B1-flags", w, r.label, p.ev, "flags not determined: " + show(st.flags)[:100] if w is None else WRONGFLAGS[r.blocking])
    return [site(p) for p in P if site(p).ok]


WRONGFLAGS = {True: "a blocking channel uses MSG_DONTWAIT for some packets of a message", False: "a non-blocking channel transfers some packets of a message without MSG_DONTWAIT, stalling the whole thread"}


def wrong_round(g, flags, blocking):
    """Flags kept across packets: False when some packet is transferred in the wrong mode, True when all are right."""
    from paths import growth
    ph = [x for x in subterms(flags) if x.op == "phi"]
    if len(ph) != 1:
        return None
    init, back = growth(g, ph[0])
    vals = init + [v for v in back if v is not ph[0]]
    out = []
    for v in vals:
        if v is None:
            return None
        k, unk = flagbits(rewrite(flags, lambda t: v if t is ph[0] else None))
        out.append(None if unk else bool(k & DONTWAIT) != blocking)
    return False if False in out else None if None in out or not out else True


def excluded_upstream(step, res):
    return False


WAITS = dict(async_io=None, write_with="send", read_with="recv", write_with_mut="send", read_with_mut="recv", writable="send",
             readable="recv", poll_write_ready="send", poll_read_ready="recv", poll_writable="send", poll_readable="recv", ready=None)


def check_waiting(r, ob):
    """Direction of every wait, and no suspension on blocking channels."""
    n = 0
    for e in all_events(r.g):
        if e.kind == "suspend" and r.blocking:
            ob("C11", "B3-no-suspend", False, r.label, e, "a synchronous operation may suspend")
            n += 1
        last = str(e.name).split("::")[-1]
        if e.kind in ("call", "io") and last in WAITS and ("UnixStream" in e.name or "Async" in e.name or "AsyncFd" in e.name):
            d = WAITS[last]
            n += 1
            if r.blocking:
                ob("C11", "B3-no-suspend", False, r.label, e, "a synchronous operation waits through a runtime")
                continue
            if d is None:
                i = unref(e.deep[1]) if len(e.deep) > 1 else None
                while i is not None and i.op == "agg" and len(i.a[2]) == 1:
                    i = i.a[2][0]
                if i is None or i.op != "int":
                    ob("C11", "B2-direction", None, r.label, e, "interest not determined")
                    continue
                want = 2 if r.way == "send" else 1
                ob("C11", "B2-direction", bool(i.a[0] & want), r.label, e, f"a {r.way} that has to wait is not woken up when the channel becomes {'writable' if r.way == 'send' else 'readable'}")
            else:
                ob("C11", "B2-direction", d == r.way, r.label, e, f"a {r.way} waits for the channel to become {'readable' if d == 'recv' else 'writable'}")
    if not n:
        ob("C11", "B3-no-suspend" if r.blocking else "B2-direction", r.blocking or None, r.label, None, "no wait found")
    if not r.blocking:
        ob("C11", "B4-can-suspend", any(e.kind == "suspend" for e in all_events(r.g)) or None, r.label, None, "never suspends")


def panic_verdict(okv, ev, f):
    """A panic is definite when it answers a failed system call or a control buffer that is too small; otherwise its
    condition is beyond the analysis."""
    if okv == 1 or any(t.op in ("app", "call") and t.a[0] == "cmsg_fits" and v == 0 for t, v in f.items()):
        return False
    return None


def pod(f):
    for t, v in f.items():
        if t.op == "app" and t.a[0] == "implements" and v == 1:
            return True
    return False


def serialized_values(g):
    """{result of serialize_self_non_trivial: event}."""
    out = {}
    for e in all_events(g):
        if e.kind == "call" and e.key and e.key.endswith("NonTrivialObject::serialize_self_non_trivial") and e.res is not None:
            out[e.res] = e
    return out


def handles_of_value(t, valterms):
    for x in subterms(t):
        if x.op == "hav" and x.a[0] in valterms:
            return True
    if t.op == "app" and t.a[0] == "new":
        return True
    return False


def whole_value(b, s, f, valterms, r):
    """The bytes of a message are the complete image of a plain value or the serialized value."""
    b = unref(b)
    if b.op == "app" and b.a[0] == "rawimg":
        tt, ptr, size, _ = b.a[1]
        if not any(t.op == "app" and t.a[0] == "implements" and v == 1 for t, v in f.items()):
            return False, "the raw bytes of a value not known to be plain are sent"
        if size is not app("size_of", tt):
            return False, f"the image sent is {show(size)[:60]} long, not the size of the value"
        if ptr.op == "sym" and ptr.a[0] == "arg" and ptr.a[-1] != "self":
            return True, ""
        return False, f"the bytes sent are not those of the value: {show(ptr)[:80]}"
    for x in subterms(b):
        if x.op == "hav" and x.a[0] in valterms:
            ev = valterms[x.a[0]]
            a0 = ev.args[0]
            if a0.op == "sym" and a0.a[0] == "arg" and a0.a[-1] != "self":
                return True, ""
            return False, f"the value serialized is not the one given: {show(a0)[:80]}"
    if b.op == "app" and b.a[0] == "new":
        for t, v in f.items():
            if t.op == "app" and t.a[0] == "size_of" and v == 0:
                return True, ""
        return False, "an empty message is sent in place of the value"
    return None, f"origin of the bytes not determined: {show(b)[:120]}"


# ------------------------------------------------------------------ receive
def contains(t, x):
    return x in subterms(t)


def check_recv(A, r, ob):
    g = r.g
    name = "recvmsg"
    P = positions(g, lambda e: e.name == name and e.kind == "call")
    if not P:
        ob("C08", "R0-sites", False, r.label, None, "no message is ever received")
        return
    stop = site_stop(name)
    sites = {}

    def site(pos):
        k = id(pos.ev)
        if k not in sites:
            sites[k] = Site(pos, "recv")
        return sites[k]

    control = {e.res for e in all_events(g) if e.res is not None and "Ancillary" in str(e.ty) + str(e.targs)}

    def foreign(f):
        """The packet carries a control message of a kind that the crate never sends: its first variant is the descriptors."""
        return any(t.op == "app" and t.a[0] == "variant" and v != 0 and t.a[1][0].op == "fld" and t.a[1][0].a[0] in control for t, v in f.items())

    deser = {}
    for e in all_events(g):
        if e.kind == "call" and e.key and e.key.endswith("NonTrivialObject::deserialize_self_non_trivial") and e.res is not None:
            deser.setdefault(e.res, []).append(e)

    def note(e):
        if e.kind == "call" and e.res in deser:
            return ("deser", e)
        if e.name and "RecvAncillaryBuffer::drain" in str(e.name):
            return ("drain", None)
        if e.kind == "suspend":
            return ("suspend", None)
        return None

    for p in [None] + P:
        handed, carried, loops, oks, conts, errs, again = [], {}, False, [], [], [], []
        st0 = site(p) if p else None
        if p and (not st0.ok or st0.base is None):
            ob("C08", "R0-shape", None, r.label, p.ev, "unrecognised message layout")
            continue
        watch = {st0.res} if p else set()
        if p:
            res = st0.res
            n = mk("fld", mk("fld", res, 0, 0), None, 0)
            cand = [mk("fld", mk("fld", res, 0, 0), v, 0) for v in (None, 0)]
            mark = mk("hav", res, ("iov", 0))
            payload = mk("hav", res, ("iov", 1))
        for s in steps(g, p, stop, watch=watch, note=note):
            ev = s.stop.ev
            f = facts_of(s.stop)
            rf = dict(s.rfacts)
            okv = ok_fact(rf, st0.res) if p else None
            if p:
                nt = next((t for t in cand if t in rf or any(t in subterms(x) for x in rf)), cand[0])
                nbytes = rf.get(nt)
                mv = marker_value(rf, mark)
            rebuilt = next((e for k_, e in s.seen if k_ == "deser"), None)
            if ev.kind in ("panic", "diverge"):
                ob("C12", "R8-no-panic", panic_verdict(okv, ev, f), r.label, ev, f"receiving may panic ({ev.name})")
                if p and okv != 1 and rebuilt is not None:
                    ob("C30", "M4-no-retry", not any(k_ == "suspend" for k_, _ in s.seen), r.label, ev, "after the value was rebuilt (or failed to be) the operation waits for the channel again and then panics, instead of returning the outcome")
                continue
            if p and okv != 1 and rebuilt is not None:
                ob("C30", "M2-complete-first", mv == 1, r.label, rebuilt, "user code rebuilds the value while packets of its message are still to come: if it fails, the next receive starts in the middle")
            if ev.kind == "ret":
                kind, val = outcome(ev.deep[0])
                if p and okv != 1 and kind == "err" and nbytes != 0 and not foreign({**f, **rf}):
                    known = mv == 1 or rebuilt is not None
                    ob("C30", "M1-boundary", True if known else None if odd_message({**f, **rf}) or okv is None and not s.rfacts else False, r.label, ev,
                       f"reports an error ({show(val)[:80]}) with the rest of the message still in the channel: the next receive starts in the middle of it")
                if p is None:
                    ob("C08", "R3-value-received", kind == "err", r.label, ev, "returns without receiving")
                    continue
                if okv == 1:
                    e = mk("fld", res, 1, 0)
                    yes, no = err_class(rf, res)
                    if not r.blocking:
                        ob("C11", "B5-waits", "wouldblock" in no, r.label, ev, "when no message is there the operation fails instead of waiting")
                    ob("C10", "R4-eof-failure", not (kind == "ok" and val.op == "agg" and val.a[1] == 0), r.label, ev, "a failed recvmsg is reported as the end of the stream")
                    ob("C12", "E1-recv-error-returned", kind == "err" and contains(val, e), r.label, ev, "a failed recvmsg does not make the operation fail with that error: " + show(ev.deep[0])[:200])
                    ob("C12", "E2-recv-eintr", "interrupted" in no or not r.blocking, r.label, ev, "an interrupted recvmsg is reported to the caller instead of being retried")
                    continue
                if kind == "ok" and is_variant(val, "Option") and val.a[1] == 1:
                    ob("C08", "R3-marker", mv == 1, r.label, ev, f"a value is returned although the end marker was not seen (marker {mv})")
                    ob("C10", "R3-not-empty", nbytes != 0, r.label, ev, "a value is returned at end of stream")
                    v = val.a[2][0]
                    oks.append({**f, **rf})
                    lost = ctrunc_consulted(f, rf, s)
                    ob("C12", "E4-truncated-handles", lost, r.label, ev, "a message whose handles the kernel could not deliver (MSG_CTRUNC) is treated as complete")
                    src = [e for k_, e in s.seen if k_ == "deser"]
                    cur = [e for e in src if contains(v, e.res)]
                    if src and not cur:
                        ob("C08", "R3-value-received", False, r.label, ev, f"the value returned is not the one deserialized: {show(v)[:150]}")
                    for e in cur:
                        check_deser(r, ob, st0, e, nt, payload, s, f)
                        handed += [(s.at_stop(l), e) for l in handle_lists(e)]
                    if not src:
                        good = any(x.op == "app" and x.a[0] == "filled" for x in subterms(v)) and contains(v, payload)
                        ob("C08", "R3-value-received", good, r.label, ev, f"the value returned does not come from the bytes received: {show(v)[:150]}")
                elif kind == "ok":
                    if val.op == "agg" and val.a[1] == 0:
                        ob("C10", "R4-eof-empty", nbytes == 0, r.label, ev, f"end of stream is reported although {'a packet arrived' if nbytes != 0 else ''}")
                        z = eq(st0.s, num(0), f)
                        ob("C10", "R4-eof-between", bool(z), r.label, ev, f"end of stream is reported in the middle of a message (position {show(st0.s)[:80]} not known to be 0)")
                        ob("C10", "R4-eof-handles", fds_empty(f), r.label, ev, "end of stream is reported while handles of an unfinished message are pending")
                    else:
                        ob("C08", "R3-value-received", None, r.label, ev, "unrecognised result " + show(val)[:100])
                else:
                    # error after a successful recvmsg
                    if nbytes == 0:
                        z = f.get(st0.s)
                        start, none = bool(eq(st0.s, num(0), f)), fds_known(f)
                        ob("C10", "R4-clean-eof", False if start and none is not False else None if none is None and not definitely(st0.s, f) else True, r.label, ev,
                           "a clean end of stream is reported as an error")
                    elif mv == 1 and not any(k_ == "deser" for k_, _ in s.seen) and not ctrunc_set(f, rf) and pod(f):
                        errs.append((f, val, ev))
                    inner = [e for k_, e in s.seen if k_ == "deser"]
                    for e in inner:
                        er = mk("fld", e.res, 1, 0)
                        if kind == "err" and variant_is(f, e.res, 1):
                            ob("C12", "E5-deserialize-error", True, r.label, ev, "")
                continue
            if p and okv != 1:
                ob("C30", "M3-one-message", rebuilt is None, r.label, ev, "receives from the channel again after the value was rebuilt: what arrives belongs to the next message")
            s1 = site(s.stop)
            if not s1.ok or s1.base is None:
                continue
            pos1 = s.at_stop(s1.s)
            b1 = s.at_stop(s1.base)
            if p is None:
                ob("C08", "R1-start", bool(eq(pos1, num(0), f)), r.label, ev, f"reception of a message starts at offset {show(pos1)[:80]}")
                continue
            if okv == 1:
                yes, no = err_class(rf, res)
                ob("C12", "E1-recv-error-returned", bool(yes), r.label, ev, "after a failed recvmsg the operation goes on without reporting the error")
                ob("C09", "W2-resume-position", bool(eq(pos1, st0.s, f)), r.label, ev, f"after a reception that delivered nothing at {show(st0.s)[:60]}, the next one writes at {show(pos1)[:100]}")
                again.append((s, ev))
                ob("C09", "W2-resume-buffer", keeps(b1, st0, ev), r.label, ev, f"bytes received before waiting are dropped: {show(b1)[:150]}")
                continue
            want = add(st0.s, add(nt, num(-1)))
            ob("C08", "R2-next-position", bool(eq(pos1, want, f)), r.label, ev, f"after n bytes at {show(st0.s)[:50]} the next packet is written at {show(pos1)[:100]}")
            ob("C08", "R2-marker", mv != 1, r.label, ev, "reception continues past the end marker")
            ob("C10", "R5-eof-progress", nbytes != 0, r.label, ev, "reception goes on at end of stream: it never ends, or misreads the count of bytes")
            loops = True
            conts.append((s, {**f, **rf}))
            carried_into(g, s, carried)
            ob("C08", "R2-buffer", keeps(b1, st0, ev) and (contains(b1, payload) or b1.op == "app" and b1.a[0] == "rawimg"), r.label, ev, f"bytes of earlier packets are dropped: {show(b1)[:200]}")
            ob("C08", "R2-same-socket", s.at_stop(s1.sock) is st0.sock, r.label, ev, "the packets of one message are read from different sockets")
            dr = [1 for k_, _ in s.seen if k_ == "drain"]
            ob("C08", "R9-handles-taken", bool(dr) or cmsg_seen(g), r.label, ev, "the handles attached to a packet are not taken out of the control buffer")
        if p and loops and oks:
            ok, why = remembered(oks, conts)
            ob("C12", "E4-remembered", ok, r.label, p.ev, why)
        for f, val, ev in errs:
            keep = {t: v for t, v in kept_losses(oks, conts)}
            ok = any(isinstance(f.get(t), int) and f[t] != v for t, v in keep.items()) or either(f, keep)
            ob("C12", "E3-recv-spurious-error", ok or None, r.label, ev, "error after a complete message: " + show(val)[:150])
        lists = {x for l, e in handed for x in subterms(unfresh(g, l)) if x.op == "phi" and carried.get(x) is not False}
        for s, ev in again:
            for x in lists:
                v = s.at_stop(x)
                ob("C09", "W2-resume-handles", v is x or (None if x in subterms(v) else False), r.label, ev, f"handles received before waiting are dropped: {show(v)[:120]}")
        if p and loops:
            for l, e in handed:
                base = [x for x in subterms(unfresh(g, l)) if x.op == "phi"]
                good = [x for x in base if carried.get(x) is not False]
                ob("C08", "R9-handles-earlier", bool(good), r.label, e, f"the handles that came with earlier packets of the message are not among those given to the deserializer: {show(l)[:120]}")
    for p in P:
        st = site(p)
        if not st.ok:
            continue
        k, unk = flagbits(st.flags)
        if unk:
            w = wrong_round(g, st.flags, r.blocking)
            ob("C11", "B1-flags", w, r.label, p.ev, "flags not determined: " + show(st.flags)[:100] if w is None else WRONGFLAGS[r.blocking])
            ob("C13", "X1-recv-cloexec", None if not k & CMSG_CLOEXEC else True, r.label, p.ev, "flags not determined")
        else:
            ob("C11", "B1-flags", bool(k & DONTWAIT) != r.blocking, r.label, p.ev, ("a blocking channel uses MSG_DONTWAIT" if r.blocking else "a non-blocking channel calls recvmsg without MSG_DONTWAIT, stalling the whole thread"))
            ob("C13", "X1-recv-cloexec", bool(k & CMSG_CLOEXEC), r.label, p.ev, "received descriptors are not close-on-exec (MSG_CMSG_CLOEXEC)")
        sp = unref(st.ev.deep[2])
    check_fdlist(A, r, g, ob, deser)
    return [site(p) for p in P if site(p).ok]


def odd_message(f):
    """The path is taken for one kind of the items that came out of some container, as for control messages of a kind the crate never
    sends."""
    return any(t.op == "app" and t.a[0] == "variant" and t.a[1][0].op == "fld" and v != 0 and t.a[1][0].a[0].op in ("call", "hav", "fld") for t, v in f.items())


def cmsg_seen(g):
    return False


def marker_value(rf, mark):
    for t, v in rf.items():
        if mark in subterms(t) and t.op in ("call", "app", "fld", "hav", "elem"):
            if isinstance(v, int):
                return v
            if 1 in v:
                return "not 1"
        if t.op == "bin" and t.a[0] == "Eq" and mark in subterms(t) and t.a[2].op == "int":
            if v == 1:
                return t.a[2].a[0]
    return None


def variant_is(f, x, v):
    for t, w in f.items():
        if w == v and t.op in ("call", "app", "variant", "discr") and (t.a[-1] == (x,) or t.a[0] is x):
            return True
    return False


def fds_empty(f):
    """Is some list of descriptors known empty?"""
    for t, v in f.items():
        if t.op in ("app", "call") and t.a[0] in ("len",) and v == 0:
            return True
        if t.op in ("app", "call") and "is_empty" in str(t.a[0]) and v == 1:
            return True
    return False


def fds_known(f):
    """Is some list of descriptors known empty (True) or not empty (False)?"""
    if fds_empty(f):
        return True
    for t, v in f.items():
        if t.op in ("app", "call") and t.a[0] == "len" and (isinstance(v, frozenset) and 0 in v or isinstance(v, int) and v > 0):
            return False
        if t.op in ("app", "call") and "is_empty" in str(t.a[0]) and v == 0:
            return False
    return None


def definitely(pos, f):
    """A position known not to be the start."""
    from lin import truth
    return truth(compare("Eq", pos, num(0)), f) == 0


def ctrunc_terms(f):
    for t, v in f.items():
        for x in subterms(t):
            if x.op in ("call", "app") and isinstance(x.a[0], str) and "RecvFlags" in x.a[0] or \
               x.op == "fld" and x.a[2] == 1 and x.a[0].op == "fld" and x.a[0].a[0].op == "call" and x.a[0].a[0].a[0] == "recvmsg":
                yield t, v
                break


def ctrunc_consulted(f, rf, s):
    """The path to an Ok(value) looked at the message flags and found the truncation bit clear."""
    for t, v in ctrunc_terms({**f, **rf}):
        bits = [x.a[0] for x in subterms(t) if x.op == "int"]
        if any(b & CTRUNC for b in bits):
            if t.op == "bin" and t.a[0] == "BitAnd" and v == 0:
                return True
            if t.op == "bin" and t.a[0] == "Eq":
                return True
            if v == 0 or v == 1:
                return True
    return False


def is_ctrunc(t):
    return any(True for _ in ctrunc_terms({t: 1})) and any(x.op == "int" and x.a[0] & CTRUNC for x in subterms(t))


def ctrunc_known(f):
    """The truncation flag of the packet just received: 1, 0 or None (not looked at)."""
    for t, v in f.items():
        if t.op == "bin" and is_ctrunc(t):
            z = v == 0 if isinstance(v, int) else False if isinstance(v, frozenset) and 0 in v else None
            if z is not None and t.a[0] in ("BitAnd", "Ne"):
                return 0 if z else 1
            if z is not None and t.a[0] == "Eq" and num(0) in t.a[1:]:
                return 1 if z else 0
    return None


def parted(f):
    """Facts with `a | b` known to be false split into its parts."""
    out = dict(f)
    st = [(t, v) for t, v in f.items()]
    while st:
        t, v = st.pop()
        if v == 0 and t.op == "bin" and t.a[0] == "BitOr":
            for x in t.a[1:]:
                if x not in out:
                    out[x] = 0
                    st.append((x, 0))
        elif isinstance(v, int) and t.op == "un" and t.a[0] == "Not" and t.a[1] not in out and v in (0, 1):
            out[t.a[1]] = 1 - v
            st.append((t.a[1], 1 - v))
    return out


def either(f, keep):
    """`a | b` is true on this path, where every part is about lost handles: the bit of this packet, or what is remembered."""
    for t, v in f.items():
        if t.op == "bin" and t.a[0] == "BitOr" and (v == 1 or isinstance(v, frozenset) and 0 in v):
            if all(x in keep or is_ctrunc(x) for x in t.a[1:]):
                return True
    return False


def kept_losses(oks, conts, verdicts=None):
    """State carried from packet to packet that blocks every delivery of a value once handles were lost: (term, value at deliveries)."""
    oks, conts = [parted(o) for o in oks], [(s, parted(f)) for s, f in conts]
    cand = [t for t in oks[0] if t.op == "phi" and isinstance(oks[0][t], int) and all(o.get(t) == oks[0][t] for o in oks)] if oks else []
    for c in cand:
        v0, good, bad = oks[0][c], True, False
        for s, f in conts:
            t = s.at_stop(c)
            const = t.a[0] if t.op in ("int", "bool") else None
            known = ctrunc_known(f)
            orred = t.op == "bin" and t.a[0] == "BitOr" and v0 == 0
            if f.get(c) is not None and f[c] != v0 and t is c:
                continue
            if known == 0:
                ok = t is c or const is not None and const != v0 or f.get(c) == v0 or orred and c in t.a[1:]
                no = const == v0
            else:
                ok = const is not None and const != v0 or orred and c in t.a[1:] and any(is_ctrunc(x) for x in t.a[1:])
                no = const == v0 or t is c
            good &= bool(ok)
            bad |= bool(no and not ok)
        if verdicts is not None:
            verdicts.append(True if good else False if bad else None)
        if good:
            yield c, v0


def remembered(oks, conts):
    """A packet whose handles were partly dropped is remembered until the end of its message."""
    why = "that handles of an earlier packet of the message were lost (MSG_CTRUNC) is forgotten: the message is delivered without them"
    if all(ctrunc_known(f) == 0 for _, f in conts):
        return True, ""
    v = []
    if list(kept_losses(oks, conts, v)):
        return True, ""
    if v and all(x is False for x in v):
        return False, why
    if not v and all(ctrunc_known(f) is None for _, f in conts) and all(ctrunc_known(o) is not None for o in oks):
        return False, why
    return None, "what is kept of lost handles is not recognised"


def ctrunc_set(f, rf):
    return any(isinstance(v, frozenset) and 0 in v or v == CTRUNC for t, v in ctrunc_terms({**f, **rf}))


def roots_of(t):
    """The memory an accumulated buffer is built on."""
    t = unref(t)
    while True:
        if t.op == "app" and t.a[0] in ("resize", "truncate", "filled", "sub", "rawsub", "add"):
            t = unref(t.a[1][1] if t.a[0] == "add" else t.a[1][0])
        elif t.op == "app" and t.a[0] == "rawimg":
            t = t.a[1][1]
            t = unref(t)
        elif t.op in ("upd", "with"):
            t = t.a[0]
        elif t.op == "&":
            t = t.a[0]
        else:
            return t


def keeps(b1, st0, ev):
    """The buffer of the next reception contains the previous one."""
    r0 = roots_of(st0.base)
    r1 = roots_of(b1)
    if r0 is r1:
        return True
    if r1.op == "fresh" and (contains(r1, r0) or r1.a[0] is r0):
        return True
    if contains(b1, r0):
        return True
    return False


def check_deser(r, ob, st0, e, nt, payload, s, f):
    d = unref(e.deep[0])
    if d.op != "agg":
        ob("C08", "R3-data", None, r.label, e, "deserializer not resolved")
        return
    data = [x for x in d.a[2] if contains(x, payload)]
    ob("C08", "R3-value-received", bool(data), r.label, e, "the value is deserialized from something else than the bytes received")
    want = add(st0.s, add(nt, num(-1)))
    for x in data:
        n = length(x)
        ok = bool(eq(n, want, f)) if n.op in ("lin", "int", "fld", "phi") or n is want else None
        if n.op == "app" and n.a[0] == "len":
            ok = None
        ob("C08", "R3-data-length", ok, r.label, e, f"the value is deserialized from {show(n)[:100]} bytes, {show(want)[:100]} were received")
    for x in d.a[2]:
        if x.op == "int":
            ob("C08", "R3-data-start", x.a[0] == 0, r.label, e, f"deserialization starts at offset {x.a[0]}")


def check_fdlist(A, r, g, ob, deser):
    """Descriptors taken out of the control buffer all end up in the list given to the deserializer."""
    done = set()
    for res, evs in deser.items():
        for e in evs:
            d = unref(e.deep[0])
            if d.op != "agg":
                continue
            lists = set()
            for x in d.a[2]:
                if x.op == "agg" and x.a[0] == ("model", "iter") or x.op == "agg" and isinstance(x.a[0], tuple) and x.a[0][0] == "model":
                    lists.add(x.a[2][0])
            if not lists:
                ob("C08", "R9-handles-delivered", None, r.label, e, "the list of handles given to the deserializer is not resolved")
                continue
            for l in lists:
                if l in done:
                    continue
                done.add(l)
                bad, grows = grow_check(g, l)
                ob("C08", "R9-handles-delivered", grows, r.label, e, f"no descriptor received ever reaches the deserializer: {show(l)[:120]}")
                ob("C08", "R9-handles-kept", not bad, r.label, e, f"descriptors received earlier are dropped from the list: {'; '.join(show(b)[:100] for b in bad)}")


def handle_lists(e):
    """The lists of handles a deserializer draws from."""
    d = unref(e.deep[0])
    if d.op != "agg":
        return []
    return [x.a[2][0] for x in d.a[2] if x.op == "agg" and isinstance(x.a[0], tuple) and x.a[0][0] == "model"]


def builds_on(g, v, ph, seen=frozenset()):
    """Is a value built on the loop-carried unknown ph, through inner loops too?"""
    for x in subterms(v):
        if x is ph:
            return True
        if x.op == "phi" and x not in seen:
            init, back = growth(g, x)
            if init and all(i is not None and builds_on(g, i, ph, seen | {x}) for i in init) and keeps_itself(g, x, seen):
                return True
    return False


def keeps_itself(g, x, seen=frozenset()):
    """Every round of its loop builds the unknown on its previous value."""
    return all(v is None or v is x or builds_on(g, v, x, seen | {x}) for v in growth(g, x)[1])


def unfresh(g, t):
    """Loops passed on the way: only the value on entry matters, and only if the loop builds on it."""
    return rewrite(t, lambda x: (app("looped", unfresh(g, x.a[1])) if keeps_itself(g, x.a[0]) else app("forgotten")) if x.op == "fresh" else None)


def carried_into(g, s, carried):
    """Note the loop-carried unknowns that one round of reception forgets (their next value is not built on the old one)."""
    for x, v in s.sigma.items():
        if x.op == "phi" and not any(y is x for y in subterms(unfresh(g, v))):
            carried[x] = False


def grow_check(g, l):
    """Follow a list through the loops that build it: ([values that lose elements], grows)."""
    seen, bad, grows = set(), [], False
    work = [l]
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "phi":
            init, back = growth(g, x)
            for v in back:
                if v is None:
                    continue
                if v is x:
                    continue
                if v.op == "app" and v.a[0] == "add":
                    grows = True
                y = peel_add(v)
                if y.op == "phi":
                    work.append(y)
                else:
                    bad.append(v)
            for v in init:
                if v is None:
                    continue
                if v.op == "app" and v.a[0] == "add":
                    grows = True
                y = peel_add(v)
                if y.op == "phi":
                    work.append(y)
        elif x.op == "app" and x.a[0] == "add":
            grows = True
            work.append(peel_add(x))
    return bad, grows


def peel_add(v):
    while v.op == "app" and v.a[0] in ("add", "ext"):
        v = v.a[1][1]
    return v


# ------------------------------------------------------------------ checks



def analyse(A, rep, ways=("send", "recv")):
    """All obligations of the message loops (computed once per process)."""
    obs = getattr(A, "_wire", None)
    if obs is not None:
        return obs
    obs = []
    caps = dict(send=[], recv=[])
    for r in graphs(A, rep, ways):
        def ob(prop, rule, ok, subj, ev, detail=""):
            obs.append((prop, rule, ok, subj, ev, detail))
        try:
            st = (check_send if r.way == "send" else check_recv)(A, r, ob) or []
            check_waiting(r, ob)
        except Undecided as e:
            rep.undecided.append(f"{r.label}: {e}")
            continue
        caps[r.way] += [(r, s) for s in st]
    capacity(caps, obs)
    A._wire = obs
    return obs


def capacity(caps, obs):
    """A packet fits the buffer the receiver offers."""
    room, fdroom = [], []
    for r, s in caps["recv"]:
        n = sub(s.e, s.s)
        if n.op == "int":
            room.append((n.a[0], r, s))
        sp = unref(s.ev.deep[2])
        v = sp.a[2][0] if sp is not None and sp.op == "agg" and sp.a[0] == ("model", "cmsgbuf") else None
        if v is not None and v.op == "int":
            c = (v.a[0] - 16) // 4
            fdroom.append((c - c % 2, r, s))
    for r, s in caps["send"]:
        b = unref(s.base)
        if b.op == "app" and b.a[0] in ("rawimg", "new"):
            # the receiver of a plain value offers all the space left in the value
            pass
        elif room:
            m = min(room, key=lambda x: x[0])
            ok = le(sub(s.e, s.s), num(m[0]), s.facts)
            obs.append(("C08", "S6-packet-fits", bool(ok), r.label, s.ev, f"a packet of {show(sub(s.e, s.s))[:120]} bytes does not fit the {m[0]} bytes {m[1].label} offers: the rest is lost"))
        if s.fds is not None and fdroom:
            m = min(fdroom, key=lambda x: x[0])
            ok = le(sub(s.fds[2], s.fds[1]), num(m[0]), s.facts) or eq(s.fdslen, num(0), s.facts)
            obs.append(("C08", "S6-handles-fit", bool(ok), r.label, s.ev, f"a packet may carry more handles than the {m[0]} the receiver has room for"))


def check(A, rep, prop, tier):
    for p, rule, ok, subj, ev, detail in analyse(A, rep):
        if p == prop:
            rep.oblige(rule, ok, subj, ev, detail)
