"""Functions marked as spawnable: C22.

The attribute is a program that writes programs; what it writes for a witness crate (every kind of function the attribute
accepts: number and types of arguments, results, runtimes, generics) is analysed. The functions of the witness's module `user`
stand for what the user wrote and are opaque, as are the operations decided by other properties (starting a process with an
object, joining it, sending, rebuilding a delayed object).

The parent's half: each entry point starts one process with an object whose call is, link by link, a call of the user's function
with the entry point's arguments in order. The child's half: calling the entry object rebuilds that object once, calls it once
in the declared runtime, and sends its result over the handle it was given.
"""
from common import *
import check_calls
from check_calls import CALLS, last, only_from, single_call
from check_codec import deref, strip
from check_derive import short_error
from check_codec import RESULT
from paths import positions, typestate
import re

W = "witness_func"
UNIT = ("tuple", ())
ENTRY = {"spawn": "blocking", "run": "blocking", "spawn_tokio": "tokio", "run_tokio": "tokio", "spawn_smol": "smol", "run_smol": "smol"}
DIRECT = ("call", "call_mut", "call_once", "call_box")


def clean(s):
    return re.sub(r"_?0x[0-9a-f]+", "", str(s))


def opener(A):
    """What is not looked into: the user's functions and the operations that other properties decide."""
    starts = {k: k.split("::")[1] for k, d in A.db.defs.items() if k.split("::")[0] == "crossmist" and len(k.split("::")) == 3 and last(k) == "spawn"}
    shut = set(starts)
    for k, d in A.db.defs.items():
        if not k.startswith("crossmist::") or d.get("container") not in ("inherent", "impl"):
            continue
        t = last((d.get("self_ty") or ("?", ""))[1]) if (d.get("self_ty") or ("?",))[0] == "adt" else ""
        if (t, last(k)) in (("Child", "join"), ("Sender", "send"), ("Delayed", "deserialize")):
            shut.add(k)

    def opaque(short, key, targs):
        return key.startswith(W + "::user::") or key in shut
    return opaque, starts


def value(v):
    """A value seen through references, boxes and unsizing."""
    for _ in range(8):
        if v.op == "&":
            v = v.a[0]
        elif v.op == "pcast":
            v = v.a[2]
        elif v.op == "agg" and isinstance(v.a[0], tuple) and last(v.a[0][1]) in ("Box", "Pin") and v.a[2]:
            v = v.a[2][0]
        else:
            break
    return v


def is_user(e):
    return e.kind == "call" and (e.key or "").startswith(W + "::user::")


def awaited(v):
    """The outcome of a future that was awaited."""
    return v.a[1][0] if v.op == "app" and v.a[0] == "output" and v.a[1] else v


class Func:
    def __init__(self, A, rep):
        self.A, self.rep, self.db = A, rep, A.db
        self.opaque, self.starts = opener(A)
        self.kinds = check_calls.bound_types(A, Report("C22"))
        self.base_seen = {}
        self.links = 0

    def run(self, k):
        g = self.A.run(k, opaque=self.opaque, deep=60)
        if g.incomplete:
            self.rep.oblige("F0-explored", None, clean(k), None, str(g.incomplete[0])[:200])
            return None
        return g

    def impls_of(self, path, name):
        out = []
        for k in self.db.bodies:
            if last(k) == name:
                st = self.db.defs[k].get("self_ty")
                if st and st[0] == "adt" and st[1] == path:
                    out.append(k)
        return out

    # ---- the object that travels
    def chain(self, v, args, n=0):
        """What calling the object v with args comes to: ('user', name, args) | ('?', why)."""
        v = value(v)
        if n > 40:
            return "?", "too deep"
        if v.op != "agg" or not isinstance(v.a[0], tuple):
            return "?", f"the called object is {show(v)[:120]}"
        path = v.a[0][1]
        fs = v.a[2]
        if path in self.kinds:
            kind, fi, hi = self.kinds[path]
            if kind != "value":
                return "?", "bound by reference"
            self.links += 1
            return self.chain(fs[fi], [fs[hi]] + args, n + 1)
        own = self.impls_of(path, "call_object_once")
        if path.startswith(W) and own:
            return self.base(own, args)
        # a wrapper of one object that only passes the call on (decided by C21)
        live = [x for x in fs if not (x.op == "agg" and isinstance(x.a[0], tuple) and last(x.a[0][1]) == "PhantomData")]
        if path.startswith("crossmist") and len(live) == 1:
            return self.chain(live[0], args, n + 1)
        return "?", f"the called object is a {clean(last(path))}"

    def base(self, keys, args):
        """Calling the function's own object."""
        if len(keys) != 1:
            return "?", "several implementations"
        k = keys[0]
        if k not in self.base_seen:
            self.base_seen[k] = self.base_of(k)
        r = self.base_seen[k]
        if r[0] != "user":
            return r
        out = []
        for i in r[2]:
            if i is None or i >= len(args):
                return "user", r[1], None
            out.append(args[i])
        return "user", r[1], out

    def base_of(self, k):
        g = self.run(k)
        if g is None:
            return "?", "not fully explored"
        b = self.db.bodies[k]
        tup = mk("sym", "arg", 2, b.names_by_local.get(2, "2"))
        calls = positions(g, is_user)
        at = lambda x, base: next((i for i in range(64) if x is mk("fld", base, None, i)), None)
        if calls:
            names = {last(p.ev.key) for p in calls}
            if single_call(g, is_user):
                return "twice", f"the function is not called exactly once by {clean(k)}"
            if len(names) != 1:
                return "?", "several functions"
            e = calls[0].ev
            return "user", names.pop(), [at(x, tup) for x in (e.deep or e.args)]
        for p in positions(g, lambda e: e.kind == "ret"):
            v = value(p.ev.deep[0])
            if v.op == "agg" and isinstance(v.a[0], tuple) and str(v.a[0][0]).startswith("coroutine"):
                return self.coroutine(v, tup, at)
            return "?", f"gives {show(v)[:120]}"
        return "?", "never returns"

    def coroutine(self, v, tup, at):
        key = v.a[0][1] if v.a[0][1] in self.db.bodies else None
        if key is None:
            return "?", "future not resolved"
        g = self.run(key)
        if g is None:
            return "?", "not fully explored"
        me = mk("sym", "arg", 1, self.db.bodies[key].names_by_local.get(1, "1"))
        calls = positions(g, is_user)
        if single_call(g, is_user):
            return "twice", "the function is not called exactly once"
        if len(calls) != 1:
            return "?", f"{len(calls)} calls"
        out = []
        for x in calls[0].ev.deep or calls[0].ev.args:
            i = next((i for i in range(len(v.a[2])) if x in (mk("fld", me, None, i), mk("fld", deref(me), None, i))), None)
            out.append(None if i is None else at(v.a[2][i], tup))
        return "user", last(calls[0].ev.key), out

    # ---- the parent
    def is_start(self, e):
        return e.kind == "call" and e.key in self.starts

    def object_of(self, g, e):
        return value((e.deep or e.args)[0])

    def entry_object(self, v):
        """(path of the entry type, the travelling object) of what a process is started with."""
        for _ in range(4):
            v = value(v)
            if v.op != "agg" or not isinstance(v.a[0], tuple):
                return None
            if v.a[0][1].startswith(W):
                break
            if len(v.a[2]) != 1:
                return None
            v = v.a[2][0]
        path, fs = v.a[0][1], v.a[2]
        for i, x in enumerate(fs):
            y = value(x)
            if y.op == "agg" and isinstance(y.a[0], tuple) and last(y.a[0][1]) == "Delayed":
                # the only content of a delayed object that never travelled is the object (C25)
                while y.op == "agg" and isinstance(y.a[0], tuple) and last(y.a[0][1]).startswith("Delayed") and len(y.a[2]) == 1:
                    y = y.a[2][0]
                return path, i, y
        return None

    def parent(self, name, how, k, ret):
        rep, subj = self.rep, f"{name}.{how}"
        g = self.run(k)
        if g is None:
            return None
        starts = positions(g, self.is_start)
        if not starts:
            rep.oblige("F1-start", None, subj, None, "no process creation recognised")
            return None
        odd = single_call(g, self.is_start)
        rep.oblige("F1-start", not odd, subj, odd[0][0] if odd else None, f"{'several processes are' if odd and odd[0][1] else 'no process is'} started")
        b = self.db.bodies[k]
        mine = [mk("sym", "arg", i, b.names_by_local.get(i, str(i))) for i in range(1, b.argc + 1)]
        entry = None
        for p in starts:
            e = p.ev
            flavour = self.starts[e.key]
            rep.oblige("F1-flavour", flavour == ENTRY[how], subj, e, f"a {flavour} child is started")
            t = e.targs[-1] if e.targs else None
            rep.oblige("F1-type", True if t == ret else None if t is None else False, subj, e, f"the child's result is taken for {tystr(t) if t else '?'}, the function gives {tystr(ret)}")
            o = self.entry_object(self.object_of(g, e))
            if o is None:
                rep.oblige("F2-arguments", None, subj, e, f"started with {clean(show(self.object_of(g, e)))[:160]}")
                continue
            entry = o[:2]
            r = self.chain(o[2], [])
            self.against(subj, "F2", r, name, mine, e)
        # results
        join = lambda e: e.kind == "call" and last(e.key) == "join" and e.key in self.db.defs and e.key.startswith("crossmist::")
        joins = positions(g, join)
        results = {p.ev.res for p in starts} | {mk("app", "output", (p.ev.res,)) for p in starts}
        if how.startswith("run"):
            good = {mk("fld", s, 0, 0) for s in results}
            for p in joins:
                c = value((p.ev.deep or p.ev.args)[0])
                rep.oblige("F7-run", True if c in good else None, subj, p.ev, f"joins {show(c)[:100]}")
            vals = {p.ev.res for p in joins} | {mk("app", "output", (p.ev.res,)) for p in joins}
        else:
            rep.oblige("F7-spawn", not joins, subj, joins[0].ev if joins else None, "starting waits for the child to finish")
            vals = results
        for p in positions(g, lambda e: e.kind == "ret"):
            v = (p.ev.deep or p.ev.args)[0]
            ok = v in vals
            if not ok and v.op == "agg" and v.a[0] == RESULT:
                x = v.a[2][0] if v.a[2] else None
                from_ = vals if v.a[1] == 0 else vals | results
                ok = any(x is mk("fld", y, v.a[1], 0) for y in from_)
                if not ok:
                    # an error may be converted or replaced by another; a value may not
                    ok = None if v.a[1] == 1 or not (x is not None and x.op in ("int", "agg", "sym", "str")) else False
            elif not ok:
                ok = None
            rep.oblige("F7-result", ok, subj, p.ev, f"gives {clean(show(v))[:120]}")
        return entry

    def against(self, subj, rule, r, name, mine, e):
        rep = self.rep
        if r[0] == "?":
            rep.oblige(rule + "-arguments", None, subj, e, r[1])
        elif r[0] == "twice":
            rep.oblige(rule + "-once", False, subj, e, r[1])
        else:
            rep.oblige(rule + "-function", r[1] == name, subj, e, f"calls {r[1]} instead of {name}")
            got = r[2]
            if got is None:
                rep.oblige(rule + "-arguments", None, subj, e, "arguments not resolved")
                return
            if len(got) != len(mine):
                rep.oblige(rule + "-arguments", False, subj, e, f"{len(got)} arguments instead of {len(mine)}")
                return
            bad = [i for i, (x, w) in enumerate(zip(got, mine)) if x is not w and value(x) is not w]
            ok = not bad or (False if all(got[i].op in ("sym", "fld", "int", "agg") for i in bad) else None)
            rep.oblige(rule + "-arguments", ok, subj, e, f"argument {bad[0] + 1} of the function is {show(got[bad[0]])[:100]}" if bad else "")

    # ---- in-process calls
    def direct(self, name, how, k, ret):
        rep, subj = self.rep, f"{name}.{how}"
        g = self.run(k)
        if g is None:
            return
        calls = positions(g, is_user)
        odd = single_call(g, is_user)
        if not calls:
            rep.oblige("F8-call", None, subj, None, "no call recognised")
            return
        rep.oblige("F8-call", not odd, subj, odd[0][0] if odd else None, "the function is not called exactly once")
        b = self.db.bodies[k]
        mine = [mk("sym", "arg", i, b.names_by_local.get(i, str(i))) for i in range(1, b.argc + 1)]
        for p in calls:
            self.against(subj, "F8", ("user", last(p.ev.key), list(p.ev.deep or p.ev.args)), name, mine, p.ev)
        for p in positions(g, lambda e: e.kind == "ret"):
            v = p.ev.args[0]
            ok = any(v is c.ev.res for c in calls) or ret == UNIT
            rep.oblige("F8-result", ok or (False if v.op in ("int", "agg", "sym", "fld") else None), subj, p.ev, f"gives {show(v)[:100]} instead of the function's result")

    # ---- the child
    def child(self, name, entry, ret, runtime):
        rep, subj = self.rep, f"{name}: in the child"
        path, fi = entry
        keys = self.impls_of(path, "call_object_once")
        if len(keys) != 1:
            rep.oblige("F3-entry", None, subj, None, f"{len(keys)} implementations of the entry object's call")
            return
        g = self.run(keys[0])
        if g is None:
            return
        b = self.db.bodies[keys[0]]
        me = mk("sym", "arg", 1, b.names_by_local.get(1, "1"))
        handle = mk("fld", mk("sym", "arg", 2, b.names_by_local.get(2, "2")), None, 0)
        isde = lambda e: e.kind == "call" and last(e.key) == "deserialize" and "Delayed" in str(e.name)
        iscall = lambda e: e.kind == "call" and last(e.key) in CALLS and (self.db.defs.get(e.key) or {}).get("container") == "trait"
        issend = lambda e: e.kind == "call" and last(e.key) == "send" and (e.key or "").startswith("crossmist::")
        isblock = lambda e: e.kind == "call" and last(str(e.name)) == "block_on"
        des, calls, sends, blocks = (positions(g, f) for f in (isde, iscall, issend, isblock))
        if not des or not calls:
            rep.oblige("F3-entry", None, subj, None, "the travelling object is not rebuilt or called in a way that is recognised")
            return
        for f, what in ((isde, "rebuilt"), (iscall, "called")):
            odd = single_call(g, f)
            rep.oblige("F3-once", not odd, f"{subj}, {what}", odd[0][0] if odd else None, f"the travelling object is {what} {odd[0][1] if odd and odd[0][1] < 2 else 'several'} times" if odd else "")
        for p in des:
            x = value((p.ev.deep or p.ev.args)[0])
            rep.oblige("F3-object", True if x is mk("fld", me, None, fi) else False if x.op in ("fld", "sym") else None, subj, p.ev, f"rebuilds {show(x)[:100]}")
        objs = {mk("fld", p.ev.res, 0, 0) for p in des}
        for p in calls:
            a = p.ev.deep or p.ev.args
            rep.oblige("F3-called", True if value(a[0]) in objs else None, subj, p.ev, f"called is {show(a[0])[:100]}")
        # runtime
        res = {p.ev.res for p in calls}
        tk = [p for p in blocks if "tokio" in (p.ev.key or "") or "Runtime" in str(p.ev.name) or "Handle" in str(p.ev.name)]
        sm = [p for p in blocks if p not in tk]
        if runtime is None:
            rep.oblige("F6-runtime", not blocks, subj, blocks[0].ev if blocks else None, "a function that is not asynchronous runs in an asynchronous runtime")
        elif not blocks:
            rep.oblige("F6-runtime", None, subj, None, "no runtime recognised")
        elif runtime.startswith("tokio"):
            rep.oblige("F6-runtime", not sm, subj, sm[0].ev if sm else None, f"runs in {sm[0].ev.key if sm else ''}, not in tokio")
            made = {last(str(e.name)) for e in all_events(g) if e.kind == "call" and ("Builder" in str(e.name) or "Runtime" in str(e.name))}
            if runtime == "tokio:current_thread":
                rep.oblige("F6-flavour", "new_current_thread" in made and not made & {"new_multi_thread", "new"} if made & {"new_multi_thread", "new_current_thread", "new"} else None, subj, blocks[0].ev, f"the runtime is made by {sorted(made)}")
            else:
                rep.oblige("F6-flavour", "new_current_thread" not in made if made & {"new_multi_thread", "new_current_thread", "new"} else None, subj, blocks[0].ev, f"the runtime is made by {sorted(made)}")
            # arguments that belong to the runtime can only be rebuilt inside it
            early = []

            def trans(s, pos):
                if isblock(pos.ev):
                    return 1
                if (isde(pos.ev) or iscall(pos.ev)) and s == 0:
                    early.append(pos.ev)
                return s
            typestate(g, 0, trans)
            rep.oblige("F6-inside", not early, subj, early[0] if early else None, "the function is rebuilt or called outside its runtime")
        else:
            rep.oblige("F6-runtime", not tk, subj, tk[0].ev if tk else None, "runs in tokio, not in smol")
        if runtime is not None:
            vals = {mk("fld", p.ev.res, 0, 0) for p in positions(g, lambda e: e.kind == "call" and last(str(e.name)) == "poll")}
            vals |= {p.ev.res for p in blocks if p.ev.res is not None and any(value(x) in res for x in (p.ev.deep or p.ev.args))}
        else:
            vals = set(res)
        # the result
        if ret == UNIT:
            rep.oblige("F5-silent", not sends, subj, sends[0].ev if sends else None, "a result is sent although there is none")
        else:
            if not sends:
                rep.oblige("F4-result", False, subj, None, "the function's result is never sent")
            bad = []

            def trans(s, pos):
                e = pos.ev
                if issend(e):
                    return min(s + 1, 2)
                if e.kind == "ret":
                    if s != 1 and not (s == 0 and ret[0] == "param"):
                        bad.append((e, s))
                    return None
                return None if e.kind == "diverge" else s
            typestate(g, 0, trans)
            rep.oblige("F4-once", not bad, subj, bad[0][0] if bad else None, f"the result is sent {'several times' if bad and bad[0][1] else 'not at all'} on a path")
            for p in sends:
                a = p.ev.deep or p.ev.args
                v = value(a[1])
                rep.oblige("F4-result", True if v in vals else False if v.op in ("int", "agg", "sym") else None, subj, p.ev, f"sends {show(v)[:120]}")
                t = p.ev.targs[-1] if p.ev.targs else None
                rep.oblige("F4-type", True if t == ret else None if t is None else False, subj, p.ev, f"sent as {tystr(t) if t else '?'}")
                ok = any(x is handle for x in subterms(a[0]))
                rep.oblige("F4-handle", True if ok else None, subj, p.ev, f"sent over {show(a[0])[:120]}")
            sres = {p.ev.res for p in sends}
        for p in positions(g, lambda e: e.kind == "ret"):
            v = p.ev.args[0]
            lost = ret != UNIT and any(t.op == "app" and t.a[0] == "variant" and t.a[1][0] in sres and w == 1 for t, w in p.ev.facts.items())
            if v.op == "int":
                rep.oblige("F4-reported", not lost or v.a[0] != 0, subj, p.ev, "the process ends well although the result could not be sent")
                rep.oblige("F3-status", v.a[0] == 0 or lost, subj, p.ev, f"a function that returned ends the process with status {v.a[0]}")
            else:
                rep.oblige("F3-status", None, subj, p.ev, f"status {show(v)[:80]}")


def table():
    """The functions of the witness: (name, runtime)."""
    out, at = [], None
    for l in open(os.path.join(VERIF, "witness", "func", "lib.rs")):
        m = re.match(r"#\[func(?:\((.*)\))?\]", l)
        if m:
            a = m.group(1)
            at = None if not a else "tokio:current_thread" if "current_thread" in a else a.split("(")[0]
        m = re.match(r"pub (?:async )?fn (\w+)", l)
        if m and at != "-":
            out.append((m.group(1), at))
            at = "-"
    return [(n, a) for n, a in out if n not in ("refs", "outer")]


def check(A0, rep, prop, tier):
    f, err = witness("func")
    if f is None and f"could not compile `{W}`" not in err:
        raise BuildFailure(err)
    if f is None:
        rep.oblige("K-compiles", False, "witness", None, "a function that the attribute accepted, or a use of one, no longer compiles: " + short_error(err), key="K-compiles:witness-func")
        return
    rep.oblige("K-compiles", True, "witness")
    A = Analysis([f] + [os.path.join(BUILD, "dump", x) for x in ("crossmist.json", "models.json")])
    F = Func(A, rep)
    rep.anchor("public functions that start a process", F.starts, 3)
    rep.anchor("partially applied types", F.kinds, 1)
    n = 0
    for name, runtime in table():
        ret = A.db.bodies[f"{W}::user::{name}"].locals[0]
        entries = {}
        for how in ENTRY:
            k = f"{W}::w_{name}::{how}"
            if k in A.db.bodies:
                n += 1
                e = F.parent(name, how, k, ret)
                if e is not None:
                    entries[how] = e
        for e in sorted(set(entries.values())):
            F.child(name, e, ret, runtime)
        for how in DIRECT:
            k = f"{W}::w_{name}::{how}"
            if k in A.db.bodies:
                n += 1
                F.direct(name, how, k, ret)
    rep.anchor("entry points analysed", n, 200)
    rep.anchor("bound arguments followed", F.links, 200)
    rep.notes.append(f"{n} entry points, {F.links} bound arguments")
    A0.functions |= {clean(x) for x in A.functions}
    A0.states += A.states


RULES = {"C22": {
    "K-compiles": "every function of the witness crate and every use of its entry points compiles",
    "F1-start": "every path of an entry point that returns starts exactly one process",
    "F1-flavour": "the child is started by the back end the entry point is named for",
    "F1-type": "the child's result type is the function's",
    "F2-function": "calling the object that travels comes to calling this function",
    "F2-arguments": "with the entry point's arguments in order, each once",
    "F2-once": "exactly once",
    "F3-once": "the child rebuilds the object once and calls it once on every path that returns",
    "F3-object": "what it rebuilds is the object that travelled", "F3-called": "what it calls is what it rebuilt",
    "F3-status": "it ends with status 0",
    "F4-once": "a result is sent exactly once", "F4-result": "what is sent is the function's result (awaited in the runtime if it is a future)",
    "F4-type": "with the function's result type", "F4-handle": "over the handle given to the process", "F4-reported": "a failure to send never ends in status 0",
    "F5-silent": "nothing is sent for a function without result",
    "F6-runtime": "the function runs in the declared runtime or in none", "F6-flavour": "of the declared flavour", "F6-inside": "object rebuilt and called inside the runtime",
    "F7-run": "run joins the child it started", "F7-spawn": "spawn does not wait", "F7-result": "spawn gives the child, run gives what join gave, an error is passed on",
    "F8-call": "calling directly calls the function exactly once", "F8-function": "this function", "F8-arguments": "with the arguments in order", "F8-result": "and gives its result"}}
EXPLAIN = {"C22": "What the func attribute writes for a witness crate (33 functions: none to twelve arguments, equal types, names that clash with the attribute's own, channels, generics, no result, tokio with both "
                  "flavours, smol) is analysed: all six entry points, the four direct call traits and the code that runs in the child, with symbolic arguments. Process creation, join, sending and delayed objects are "
                  "decided by C08-C19 and C25. The quantifier over functions is covered by kinds of signature."}
