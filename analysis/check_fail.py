"""What happens when a part of a value cannot be rebuilt (C29).

Subject: every function that rebuilds a value from the stream (the implementations of the object traits, hand-written, generated by
the derive macro or blanket, and the public operations that decode). The operations of Deserializer and of the object traits stay
calls; every path on which one of them fails is followed to its end.
"""
import check_wire
import codec
from codec import *
from common import *
from check_codec import context, all_events
from check_proc import facts_of, has, skipped
from paths import positions, growth
from points import point

RULES = {"C29": {
    "F1-reported": "On every path on which a part could not be rebuilt the function ends with an error: no success, no panic, no result nobody looked at.",
    "F2-stops": "Nothing more is taken from the stream after a part failed: what follows would be read as something else.",
    "F3-released": "Parts already stored in memory Rust does not look after are released on that path, each of them, once, and nothing else.",
    "F4-not-forgotten": "No part already rebuilt is forgotten on that path.",
}}
EXPLAIN = {"C29": "paths of the MIR of every decoding function on which a nested decoding operation or fallible conversion fails, followed to their ends; manual memory by loop ranges"}


def result_of(t):
    return t is not None and len(t) > 2 and t[0] == "adt" and t[1].split("::")[-1] == "Result"


class Subject:
    def __init__(self, A, ops, k, label, env=None, receiving=False):
        self.A, self.ops, self.k, self.label, self.receiving = A, ops, k, label, receiving
        self.f = ops.opaque(frozenset())
        self.g = A.run(k, env=env or {}, opaque=self.f)

    def plain(self, t):
        """Types rebuilt from bytes alone, which have nothing to release and whose rebuilding never fails by itself."""
        return t is not None and (t[0] in ("int", "bool", "char", "float") or t == ("tuple", ()))

    def failing(self, e):
        """(what is rebuilt or converted, whether its failure can occur at all and must be handed on) for an operation that may fail."""
        if e.kind != "call" or e.res is None:
            return None
        op = self.ops.keys.get(e.key)
        if op is not None:
            if op[1] not in ("deserialize", "deserialize_self", "deserialize_self_non_trivial", "deserialize_on_heap"):
                return None
            t = (e.targs or (None,))[-1 if op[1] == "deserialize" else 0]
            return ("decode", t, not self.plain(t))
        if self.receiving:
            return None
        if e.name == "<value>" and len(e.args or ()) == 2 and result_of(e.ty):
            return ("decode", None, True)
        if result_of(e.ty) and len(e.ty[2]) > 1 and e.ty[2][1][0] == "adt" and e.ty[2][1][1].endswith("io::error::Error"):
            return ("convert", e.ty[2][0], e.ty[2][0] != ("tuple", ()))
        return None

    def walk(self, rep):
        g, label = self.g, self.label
        ops = {}
        for n in g.nodes:
            for e in list(n.events) + [x for s in n.succs for x in s.events]:
                r = self.failing(e)
                if r:
                    ops[e.res] = (e, r)
        for e in g.entry_edge.events:
            r = self.failing(e)
            if r:
                ops[e.res] = (e, r)
        self.count = len(ops)
        name = lambda c: f"{'the part of type ' + tystr(ops[c][1][1]) if ops[c][1][1] else 'a part'} ({ops[c][0].name})"
        var = {mk("app", "variant", (c,)): c for c in ops}
        var.update({app("variant", c): c for c in ops})
        told = set()

        def say(rule, ok, e, what):
            key = (rule, ok, id(e), what)
            if key not in told:
                told.add(key)
                rep.oblige(rule, ok, label, e, what)

        def events(state, evs):
            pend, failed = state
            for e in evs:
                serious = [c for c in failed if ops[c][1][2]]
                if e.res is not None and e.kind == "call" and e.res in ops:
                    if ops[e.res][1][0] == "decode" and failed:
                        say("F2-stops", not any(ops[c][1][0] == "decode" for c in serious) or False, e, f"goes on decoding after {name(next(iter(serious or failed)))} could not be rebuilt")
                        if serious:
                            return None
                    elif ops[e.res][1][0] == "decode":
                        say("F2-stops", True, e, "")
                    pend = pend | {e.res}
                    failed = failed - {e.res}
                elif self.receiving and serious and e.kind == "call" and str(e.name).split("::")[-1] in ("recvmsg", "recv", "read"):
                    say("F2-stops", False, e, f"receives again after {name(serious[0])} could not be rebuilt instead of reporting it")
                    return None
                elif e.kind in ("panic", "diverge"):
                    if serious:
                        say("F1-reported", None if e.kind == "panic" and not any(w in str(e.name) for w in ("unwrap", "expect", "panic", "unreachable")) else False, e,
                            f"panics when {name(serious[0])} fails instead of reporting the error")
                    return None
                elif e.kind == "forget" and serious:
                    say("F4-not-forgotten", None, e, "something is forgotten on a failing path")
                elif e.kind == "ret" and (e.ctx is None or e.ctx.id == 0):
                    self.end(e, pend, failed, ops, name, say)
                    return None
            return pend, failed

        seen = set()
        work = []
        s = events((frozenset(), frozenset()), g.entry_edge.events)
        if s is not None and g.entry_edge.dst is not None:
            work.append((g.entry_edge.dst, s))
        while work:
            n, s = work.pop()
            if (n.id, s) in seen:
                continue
            seen.add((n.id, s))
            if len(seen) > 60000:
                rep.oblige("F1-reported", None, label, None, "too many states")
                return
            s = events(s, n.events)
            if s is None:
                continue
            for e in n.succs:
                pend, failed = s
                for t, v in e.facts.items():
                    c = var.get(t)
                    if c is None:
                        continue
                    if v == 0 or isinstance(v, frozenset) and 1 in v:
                        pend = pend - {c}
                    elif v == 1 or isinstance(v, frozenset) and 0 in v:
                        pend, failed = pend - {c}, failed | {c}
                s2 = events((pend, failed), e.events)
                if s2 is not None and e.dst is not None:
                    work.append((e.dst, s2))
        self.states = len(seen)

    def end(self, e, pend, failed, ops, name, say):
        v = e.deep[0] if e.deep else None
        serious = [c for c in failed if ops[c][1][2]]
        if v is None:
            return
        if v.op == "agg" and v.a[0] == codec.RESULT:
            if v.a[1] == 1:
                say("F1-reported", True, e, "")
                return
            for c in serious:
                say("F1-reported", False, e, f"reports success although {name(c)} could not be rebuilt")
            for c in pend:
                if ops[c][1][2]:
                    inner = v.a[2][0] if v.a[2] else v
                    say("F1-reported", False if not any(x is c for x in subterms(inner)) else None, e, f"does not look at whether {name(c)} could be rebuilt")
            if not serious and not pend:
                say("F1-reported", True, e, "")
        elif v in ops and (v in pend or v in failed):
            for c in serious:
                if c is not v:
                    say("F1-reported", None, e, f"hands on another result after {name(c)} failed")
            for c in pend - {v}:
                if ops[c][1][2]:
                    say("F1-reported", False, e, f"does not look at whether {name(c)} could be rebuilt")
            say("F1-reported", True, e, "")
        else:
            if serious or any(ops[c][1][2] for c in pend):
                say("F1-reported", True if any(has(v, c) for c in serious) else None, e, f"result not resolved: {show(v)[:100]}")

    # ---------------------------------------------------------------- memory looked after by hand
    def memory(self, rep):
        """Loops that store decoded parts in memory that starts out uninitialized."""
        g = self.g
        for h in g.nodes:
            for M in h.phis or ():
                init, back = growth(g, M)
                if not init or not all(v is not None and v.op in ("uninit",) or v is not None and show(v).startswith("uninit") for v in init):
                    continue
                ups = [v for v in back if v is not None and v.op == "upd" and v.a[0] is M and v.a[1][0] == "i"]
                if not ups or len(ups) != len(back):
                    continue
                idx = {u.a[1][1] for u in ups}
                if len(idx) != 1 or not any(x.op in ("call", "fld") for x in subterms(ups[0].a[2])):
                    continue
                self.loop(rep, h, M, idx.pop())

    def counters(self):
        """Counters that always have the same value."""
        g = self.g
        out = {}
        for n in g.nodes:
            for p in n.phis or ():
                init, back = growth(g, p)
                if init and back and all(v is not None and v.op == "int" for v in init) and len({v for v in init}) == 1 and all(v is add(p, num(1)) for v in back):
                    out[p] = (n.id, init[0].a[0])
        return out

    def loop(self, rep, h, M, i):
        g, label = self.g, self.label
        same = self.counters()
        fails = {c: e for n in g.nodes for e in list(n.events) + [x for s in n.succs for x in s.events] for c in [e.res] if self.failing(e) and self.failing(e)[2]}
        # from every edge inside the loop on which a part fails, to the ends
        inside = self.component(h)
        starts = []
        for n in inside:
            for e in n.succs:
                for t, v in e.facts.items():
                    if v == 1 and t.op == "app" and t.a[0] == "variant" and t.a[1][0] in fails:
                        starts.append((e, t.a[1][0]))
        mem = {M}
        grew = True
        while grew:
            grew = False
            for n in g.nodes:
                for p in n.phis or ():
                    if p not in mem and any(v is not None and (v in mem or v.op == "upd" and v.a[0] in mem) for v in growth(g, p)[0]):
                        mem.add(p)
                        grew = True
        for e0, c in starts:
            self.release(rep, e0, h, mem, M, i, same)

    def component(self, h):
        """Nodes of the loop headed by h."""
        g = self.g
        back = set()
        work = [p.src for p in h.preds if p.src is not None and p.arrive is not None and p.arrive.loops.get((h.ctx.id, h.bb)) is not None]
        while work:
            n = work.pop()
            if n is h or n.id in {x.id for x in back}:
                continue
            back.add(n)
            work += [p.src for p in n.preds if p.src is not None]
        return list(back) + [h]

    def release(self, rep, e0, h, mem, M, i, same):
        g, label = self.g, self.label
        seen, work = set(), [e0]
        drops, other, loops, ends, at = [], [], [], [], {}
        while work:
            e = work.pop()
            if id(e) in seen:
                continue
            seen.add(id(e))
            evs = [(x, e) for x in e.events]
            d = e.dst
            if d is not None:
                if d is h:
                    return          # the loop goes on: told by F2
                if d.phis and d not in loops:
                    loops.append(d)
                evs += [(x, None) for x in d.events]
                work += d.succs
            for x, _ in evs:
                about = [a for a in (x.deep or x.args or ()) if any(m in subterms(a) for m in mem)]
                if x.kind == "ret":
                    ends.append(x)
                if not about:
                    continue
                if x.kind == "drop":
                    drops.append(x)
                    at[id(x)] = e
                elif x.kind != "ret":
                    other.append(x)
                elif any(m in subterms(x.deep[0]) for m in mem):
                    other.append(x)
        if not ends:
            return
        if not drops:
            if other:
                rep.oblige("F3-released", None, label, (other or ends)[0], "parts stored in uninitialized memory are handled in a way that is not resolved")
            else:
                rep.oblige("F3-released", False, label, ends[0], "the parts already rebuilt are neither released nor returned when a later one fails: the handles in them stay open")
            return
        for x in drops:
            el = next((y for a in (x.deep or ()) for y in subterms(a) if y.op == "app" and y.a[0] in ("elem", "sub") and any(m in subterms(y.a[1][0]) for m in mem)), None)
            if el is None or len(drops) > 1:
                rep.oblige("F3-released", None, label, x, "release of the parts not resolved")
                continue
            if el.a[0] == "sub":
                lo, n = el.a[1][1], el.a[1][2]
                self.range(rep, x, lo, n, i, same, {})
                continue
            j = el.a[1][1]
            ph = [y for y in subterms(j) if y.op == "phi" and any(d.phis and y in d.phis for d in loops)]
            if not ph:
                rep.oblige("F3-released", False if any(d.phis for d in loops) or j.op == "int" else None, label, x,
                           f"on failure only one element ({show(j)}) is released, whatever was rebuilt before it")
                continue
            if len(ph) == 1 and j is add(ph[0], num(-1)):
                # backwards: the loop counts down to a lower bound
                init, back = growth(g, ph[0])
                f = self.learnt(at[id(x)], loops)
                lo = [t.a[1] for t, v in f.items() if t.op == "bin" and t.a[0] == "Lt" and v == 1 and t.a[2] is ph[0]]
                lo += [num(0) for t, v in f.items() if t is ph[0] and isinstance(v, frozenset) and v == {0}]
                lo += [num(0) for t, v in f.items() if v == 0 and t is compare("Eq", ph[0], num(0))]
                if len(lo) == 1 and len(set(init)) == 1 and all(v is j for v in back):
                    self.range(rep, x, lo[0], init[0], i, same, f)
                    continue
            if len(ph) > 1 or j is not ph[0]:
                rep.oblige("F3-released", None, label, x, f"order of release not resolved ({show(j)})")
                continue
            init, back = growth(g, j)
            if not all(v is add(j, num(1)) for v in back) or len(set(init)) != 1 or init[0] is None:
                rep.oblige("F3-released", None, label, x, "order of release not resolved")
                continue
            f = self.learnt(at[id(x)], loops)
            ub = [t.a[2] for t, v in f.items() if t.op == "bin" and t.a[0] == "Lt" and v == 1 and t.a[1] is j]
            ub += [add(t.a[1], num(1)) for t, v in f.items() if t.op == "bin" and t.a[0] == "Lt" and v == 0 and t.a[2] is j]
            if not ub:
                rep.oblige("F3-released", None, label, x, "number of elements released not resolved")
                continue
            self.range(rep, x, init[0], ub[0] if len(ub) == 1 else next((u for u in ub if u is i), ub[0]), i, same, f)

    def learnt(self, e, heads):
        """What the branches between the loop head and here established."""
        out, seen, work = {}, set(), [e]
        while work:
            e = work.pop()
            if id(e) in seen:
                continue
            seen.add(id(e))
            out.update(e.facts or {})
            if e.src is not None and e.src not in heads:
                work += e.src.preds
        return out

    def range(self, rep, x, lo, hi, i, same, facts):
        """Elements lo..hi are released; those stored are 0..i."""
        label = self.label
        what = f"on failure of element i the elements {show(lo)}..{show(hi)} are released where {'0..i'} had been rebuilt"
        if lo.op == "int" and lo.a[0] == 0 and (hi is i or hi in same and i in same and same[hi] == same[i]):
            rep.oblige("F3-released", True, label, x)
            return
        free = lambda t: t.op == "phi" or t.op == "sym" and t.a[0] == "const"
        bad = mk("bin", "BitOr", mk("un", "Not", compare("Eq", lo, num(0))) if lo.op != "int" else num(int(lo.a[0] != 0)), mk("un", "Not", compare("Eq", hi, i)))
        p = point({}, free, extra=[compare("Lt", num(0), i), bad]) if i in subterms(hi) or hi.op == "int" or lo.op == "int" and lo.a[0] else None
        rep.oblige("F3-released", False if p is not None else None, label, x, what)


def subjects(A, ops, derived):
    db = A.db
    for k, (a, n) in sorted(ops.keys.items()):
        d = db.defs[k]
        if k not in db.bodies or derived and not k.startswith("witness_derive::"):
            continue
        if n in ("deserialize_self_non_trivial", "deserialize_on_heap", "deserialize_on_heap_get", "deserialize_self") or (a, n) == ("Deserializer", "deserialize"):
            st = d.get("self_ty")
            yield k, (tystr(st) if st else a) + ("" if n == "deserialize_self_non_trivial" else "::" + n)


def run(A, rep, what, least):
    ops = context(A).ops
    n = m = 0
    for k, label in subjects(A, ops, what == "derived"):
        try:
            s = Subject(A, ops, k, label)
            if not any(e.kind == "ret" for e in all_events(s.g)):
                continue
            s.walk(rep)
            s.memory(rep)
        except RecursionError:
            raise
        except Exception as e:
            rep.oblige("F1-reported", None, label, None, f"not understood: {type(e).__name__}: {e}")
            continue
        n += 1
        m += s.count
    rep.anchor(f"functions that rebuild values ({what})", [None] * (n if n >= least and m else 0))
    rep.samples.append(f"{what}: {n} functions, {m} operations that may fail")
    return n


def check(A, rep, prop, tier):
    if prop != "C29":
        return
    run(A, rep, "crate", 30 if A.config == "full" else 20)
    de = A.method("Delayed", "deserialize")
    ops = context(A).ops
    rep.anchor("Delayed::deserialize", [de] if de else [])
    if de and de in A.db.bodies:
        s = Subject(A, ops, de, "Delayed::deserialize")
        s.walk(rep)
    rs, missing = check_wire.roots(A)
    n = 0
    for label, k, env, blocking, way in rs:
        if way != "recv":
            continue
        try:
            s = Subject(A, ops, k, label, env, True)
        except Undecided as e:
            rep.undecided.append(f"{label}: {e}")
            continue
        s.walk(rep)
        n += s.count
    rep.anchor("decodings of received messages", n, 2)
    if A.config != "full":
        return
    f, err = witness("derive")
    if f is None:
        rep.undecided.append("derived implementations: the witness does not compile: " + str(err)[-200:])
        return
    B = Analysis([f] + [os.path.join(BUILD, "dump", x) for x in ("crossmist.json", "models.json")])
    run(B, rep, "derived", 20)
    A.functions |= B.functions
    A.states += B.states
