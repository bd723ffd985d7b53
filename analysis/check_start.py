"""What a failed start leaves behind (C34): paths of the public ways of spawning from the creation of the process to an error."""
from common import *
from paths import positions, typestate
from check_proc import (all_events, called, ends, facts_of, flagval, has, ops, outcome, owns, pair_ends, pairs, possible, releases,
                        spawn_graphs, waits)

RULES = {"C34": {
    "S1-reaped": "On every path from a successful creation of the process to an error returned by the spawning function, exactly that process is waited for.",
    "S1-finally": "That wait lasts until the process has ended.",
    "S2-told": "Before it waits, the parent has closed both ends of the channel: the process, which is waiting for the rest of the start-up message, sees that none will come.",
    "S3-closed": "On every path to an error, both ends of the channel made for the process have been closed.",
    "S4-silent": "On a path to an error after the creation of the process no start-up message has been sent completely: the function that was to run does not run.",
}}
EXPLAIN = {"C34": "every path through the public spawn functions that ends in an error, with the process creation, waits, channel ends and transfers on it"}


def created(f, t):
    """Has the creation of the process succeeded (True, False, None: not known)?"""
    if not any(t in subterms(x) for x in f):
        return None
    a = possible(f, lambda x: -1 if x is t else None, {t})
    b = possible(f, lambda x: 77 if x is t else None, {t})
    if a is False and b is not False:
        return True
    if b is False and a is not False:
        return False
    return None


def holds(t, x):
    """Does a value own descriptor x, directly or taken over by its number?"""
    if owns(t, x):
        return True
    if t.op == "app" and t.a[0] == "owned":
        return has(t, x)
    if t.op == "agg":
        return any(holds(y, x) for y in t.a[2])
    if t.op == "app" and t.a[0] in ("conv", "add", "coll") or t.op == "call" and t.a[2] is not None:
        return any(holds(y, x) for y in t.a[1] if isinstance(y, Term))
    if t.op == "&":
        return False
    if t.op in ("fld", "with", "upd"):
        return any(holds(y, x) for y in t.a if isinstance(y, Term))
    return False


def before(A, g):
    """What a transfer leaves of the end it worked on is that end: the value after the call stands for the one before."""
    vals = {}
    for e in all_events(g):
        if e.kind == "call" and e.key in ops(A) and e.res is not None:
            for i, a in enumerate(e.deep or ()):
                if a.op == "&":
                    vals[mk("hav", e.res, i)] = a.a[0]
    return lambda t: rewrite(t, lambda x: vals.get(x) if x.op == "hav" else None)


def closes(e, x, old):
    if e.kind == "drop" and e.deep and e.name != "alias":
        return holds(old(e.deep[0]), x)
    return releases(e, x)


def check(A, rep, prop, tier):
    for label, k, g, C in spawn_graphs(A, rep):
        W = waits(g)
        cres = {id(c.ev): c.ev.res for c in C}
        wset = {id(w.ev) for w in W}
        old = before(A, g)
        for w in W:
            e = w.ev
            if not called(e, "waitpid"):
                rep.oblige("S1-reaped", None, label, e, f"unrecognised way of waiting: {e.name}")
                continue
            fl = flagval(e.deep[1])
            rep.oblige("S1-finally", None if fl is None else fl & (1 | 2 | 8) == 0, label, e,
                       "the wait after a failed start may end before the process does: it stays a zombie")
        E = list(dict.fromkeys(x for p in pairs(g) for x in pair_ends(p.ev.res)))
        rep.anchor(f"ends of the channel made in {label}", E, 2)
        bad, seen = {}, [0]
        rets = [p for p in ends(g) if p.ev.kind == "ret"]

        def mark(rule, e, sure=True, why=""):
            if rule not in bad or sure and not bad[rule][1]:
                bad[rule] = (e, sure, why)

        def trans(s, pos):
            e = pos.ev
            made, waited, sent, shut = s
            if id(e) in cres:
                return (id(e), False, sent, shut)
            if id(e) in wset:
                if made is None:
                    mark("S1-reaped", e, False, "waits before there is a process")
                else:
                    mine = any(has(a, cres[made]) for a in e.deep or ())
                    if not mine:
                        return s
                    if len(shut) < len(E):
                        mark("S2-told", e, True, "waits for the process while this end of its channel is still open: the process goes on waiting for its start-up message, so neither ever continues")
                    return (made, True, sent, shut)
                return s
            gone = [x for x in E if x not in shut and closes(e, x, old)]
            if gone:
                shut = shut | frozenset(gone)
                return (made, waited, sent, shut)
            if e.kind == "call" and e.key in ops(A) and "send" in str(e.name):
                return (made, waited, e.res, shut)
            if e.kind == "ret":
                kind, val = outcome(e.deep[0])
                if kind == "ok":
                    return s
                if kind is None:
                    mark("S1-reaped", e, False, "result not resolved")
                    return s
                f = facts_of(pos)
                seen[0] += 1
                if made is not None and not waited:
                    c = created(f, cres[made])
                    if c is not False:
                        mark("S1-reaped", e, c is True, "the start fails after the process has been created, and the process is never waited for: it stays a zombie")
                if made is not None and sent is not None and created(f, cres[made]) is not False:
                    v = f.get(app("variant", app("output", sent)))
                    if v == 0:
                        mark("S4-silent", e, True, "the start is reported as failed although the start-up message has been sent: the function runs, and its process and result belong to nobody")
                left = [x for x in E if x not in shut]
                if left:
                    p = pairs(g)
                    mk_ok = [f.get(app("variant", q.ev.res)) for q in p]
                    if 1 not in mk_ok:
                        mark("S3-closed", e, 0 in mk_ok, "an end of the channel made for the process is still open when the failure is reported")
            return s
        try:
            typestate(g, (None, False, None, frozenset()), trans)
        except Undecided as x:
            rep.undecided.append(f"{label}: {x}")
            continue
        rep.anchor(f"paths to an error in {label}", seen[0], 2)
        for rule in ("S1-reaped", "S2-told", "S3-closed", "S4-silent"):
            e, sure, why = bad.get(rule, (None, True, ""))
            rep.oblige(rule, True if e is None else False if sure else None, label, e, f"{label}: {why}", key=f"{rule}:{label}")
