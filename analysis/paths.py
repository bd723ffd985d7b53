"""Composition of paths of the exploded graph between occurrences of chosen events.

Between two consecutive occurrences the values at the second one are expressed in the unknowns of the
first: the assignments of the loop-carried unknowns met on the way are composed. Unknowns of loops that
lie entirely between the two occurrences stay unknown: `fresh(phi, value on entry to the loop)`.
"""
from terms import *


class Pos:
    """An event occurrence: an event on an edge or at a node, or the entry (ev None)."""
    __slots__ = ("node", "edge", "idx", "ev")

    def __init__(self, node, edge, idx, ev):
        self.node, self.edge, self.idx, self.ev = node, edge, idx, ev


class Step:
    __slots__ = ("start", "stop", "sigma", "rfacts", "trace", "seen", "flags")

    def __init__(self, start, stop, sigma, rfacts, trace, seen, flags=()):
        self.start, self.stop, self.sigma, self.rfacts, self.trace, self.seen = start, stop, sigma, rfacts, trace, seen
        self.flags = dict(flags)    # what tests of loop-carried variables told, in the unknowns of the start

    def at_stop(self, t):
        """A term of the stop occurrence expressed in the unknowns of the start occurrence."""
        return apply(self.sigma, t)


def apply(sigma, t):
    if not sigma:
        return t
    return rewrite(t, lambda x: sigma.get(x) if x.op == "phi" else None)


def positions(g, pred):
    out = []
    for n in g.nodes:
        for i, e in enumerate(n.events):
            if pred(e):
                out.append(Pos(n, None, i, e))
        for x in n.succs:
            for i, e in enumerate(x.events):
                if pred(e):
                    out.append(Pos(n, x, i, e))
    return out


def reduced_loops(g, stop):
    """Nodes in cycles that contain no stop event."""
    succ = {}
    for n in g.nodes:
        succ[n.id] = []
        if any(stop(e) for e in n.events):
            continue
        for x in n.succs:
            if x.dst is not None and not any(stop(e) for e in x.events):
                succ[n.id].append(x.dst.id)
    index, low, on, st, comp, cnt = {}, {}, set(), [], {}, [0]
    for root in succ:
        if root in index:
            continue
        work = [(root, iter(succ[root]))]
        index[root] = low[root] = cnt[0]
        cnt[0] += 1
        st.append(root)
        on.add(root)
        while work:
            v, it = work[-1]
            adv = False
            for w in it:
                if w not in index:
                    index[w] = low[w] = cnt[0]
                    cnt[0] += 1
                    st.append(w)
                    on.add(w)
                    work.append((w, iter(succ[w])))
                    adv = True
                    break
                elif w in on:
                    low[v] = min(low[v], index[w])
            if adv:
                continue
            work.pop()
            if work:
                u = work[-1][0]
                low[u] = min(low[u], low[v])
            if low[v] == index[v]:
                c = []
                while True:
                    w = st.pop()
                    on.discard(w)
                    c.append(w)
                    if w == v:
                        break
                if len(c) > 1 or v in succ[v]:
                    for w in c:
                        comp[w] = v
    return comp


def once(g):
    """Results of the calls that are made at most once in a run."""
    if getattr(g, "once", None) is None:
        comp = reduced_loops(g, lambda e: False)
        single, repeated = set(), set()
        for n in g.nodes:
            (repeated if n.id in comp else single).update(e.res for e in n.events if e.res is not None)
            for x in n.succs:
                again = n.id in comp and x.dst is not None and comp.get(x.dst.id) == comp[n.id]
                (repeated if again else single).update(e.res for e in x.events if e.res is not None)
        g.once = single - repeated
    return g.once


def invariant(t, single=frozenset()):
    """Does a term mean the same at every point of a run (no loop-carried unknowns, no results of calls made repeatedly)?"""
    return not any(x.op in ("phi", "fresh", "uninit", "moved") or x.op == "hav" and x.a[0] not in single
                   or x.op == "call" and x.a[2] is not None and x not in single for x in subterms(t))


def compatible(inv, facts):
    for t, v in facts.items():
        w = inv.get(t)
        if w is None:
            continue
        if isinstance(v, int):
            if isinstance(w, int) and v != w or isinstance(w, frozenset) and v in w:
                return False
        elif isinstance(w, int) and w in v:
            return False
    return True


def contradicts(sigma, facts):
    """Is a fact about loop-carried unknowns excluded by the values they have on this path?"""
    for t, v in facts.items():
        if not any(x.op == "phi" and x in sigma for x in subterms(t)):
            continue
        w = apply(sigma, t)
        if w.op == "int" and (isinstance(v, int) and w.a[0] != v or isinstance(v, frozenset) and w.a[0] in v):
            return True
    return False


def tested(sigma, facts, flags):
    """Add what facts about boolean loop-carried variables mean for the values they were given on this path."""
    got = None
    for t, v in facts.items():
        x = t.a[1] if t.op == "un" and t.a[0] == "Not" else t
        if x.op == "phi" and x in sigma and isinstance(v, int):
            w = apply(sigma, t)
            if w.op not in ("int", "phi") and not any(y.op == "fresh" for y in subterms(w)):
                got = got or set(flags)
                if w.op == "un" and w.a[0] == "Not":
                    w, v = w.a[1], 1 - v
                got.add((w, v))
    return flags if got is None else frozenset(got)


def steps(g, start, stop, watch=None, limit=40000, note=None):
    """All steps from `start` (a Pos, or None for the entry) to the next event satisfying `stop`.

    Facts mentioning a term of `watch` are recorded along the way; `note(ev)` returning something
    non-None collects it in Step.seen (a frozenset)."""
    comp = reduced_loops(g, stop)
    out, seenstates = [], set()
    watch = set(watch or ())
    f0 = {}
    if start is not None:
        f0 = start.ev.facts if start.ev.facts is not None else start.node.state.facts
    single = once(g)
    inv = {t: v for t, v in f0.items() if invariant(t, single)}

    def relevant(t):
        return bool(watch) and any(x in watch for x in subterms(t))

    work = []

    def scan(events, i0):
        """(index of stop, notes) in an event list"""
        got = []
        for i in range(i0, len(events)):
            if stop(events[i]):
                return i, got
            if note:
                v = note(events[i])
                if v is not None:
                    got.append(v)
        return None, got

    def take(e, i0, sigma, rf, trace, seen, flags):
        """Traverse the rest of edge e."""
        if inv and (not compatible(inv, e.facts) or e.dst is not None and not compatible(inv, e.dst.state.facts)):
            return
        if sigma and contradicts(sigma, e.facts):
            return
        flags = tested(sigma, e.facts, flags)
        rf2 = dict(rf)
        for t, v in e.facts.items():
            if relevant(t):
                rf2[t] = v
        i, got = scan(e.events, i0)
        seen = seen | frozenset(got)
        if i is not None:
            out.append(Step(start, Pos(e.src, e, i, e.events[i]), sigma, rf2, trace, seen, flags))
            return
        if e.dst is None:
            return
        d = e.dst
        s2 = sigma
        if d.phis:
            s2 = dict(sigma)
            if d.id in comp:
                inside = e.src is not None and comp.get(e.src.id) == comp[d.id]
                for ph in d.phis:
                    cur = sigma.get(ph)
                    if inside and cur is not None and cur.op == "fresh" and cur.a[0] is ph:
                        continue
                    init = apply(sigma, e.assign.get(ph, UNINIT))
                    s2[ph] = mk("fresh", ph, init if not inside else UNINIT)
            else:
                for ph in d.phis:
                    s2[ph] = apply(sigma, e.assign.get(ph, UNINIT))
        key = (d.id, frozenset(s2.items()), frozenset(rf2.items()), seen, flags)
        if key in seenstates:
            return
        seenstates.add(key)
        if len(seenstates) > limit:
            from interp import Undecided
            raise Undecided("too many paths")
        work.append((d, 0, s2, rf2, trace + (d.id,) if len(trace) < 400 else trace, seen, flags))

    if start is None:
        take(g.entry_edge, 0, {}, {}, (), frozenset(), frozenset())
    elif start.edge is not None:
        take(start.edge, start.idx + 1, {}, {}, (), frozenset(), frozenset())
    else:
        work.append((start.node, start.idx + 1, {}, {}, (), frozenset(), frozenset()))
    while work:
        n, i0, sigma, rf, trace, seen, flags = work.pop()
        i, got = scan(n.events, i0)
        seen = seen | frozenset(got)
        if i is not None:
            out.append(Step(start, Pos(n, None, i, n.events[i]), sigma, rf, trace, seen, flags))
            continue
        for e in n.succs:
            take(e, 0, sigma, rf, trace, seen, flags)
    return out


def growth(g, ph):
    """(values on entry, values on the back edges) of a loop-carried unknown."""
    init, back = [], []
    for n in g.nodes:
        if n.phis and ph in n.phis:
            for e in n.preds:
                v = e.assign.get(ph)
                t = e.arrive.loops.get((n.ctx.id, n.bb)) if e.arrive is not None else None
                (back if t is not None else init).append(v)
    if g.entry.phis and ph in g.entry.phis:
        init.append(g.entry_edge.assign.get(ph))
    return init, back


def typestate(g, init, trans, limit=200000):
    """Run a finite automaton along every path: trans(state, pos) -> next state (None to stop following the path).
    Returns {state: True} at ends is left to trans."""
    seen = set()
    work = []

    def events(state, node, edge, evs):
        for i, e in enumerate(evs):
            state = trans(state, Pos(node, edge, i, e))
            if state is None:
                return None
        return state

    s = events(init, None, g.entry_edge, g.entry_edge.events)
    if s is not None and g.entry_edge.dst is not None:
        work.append((g.entry_edge.dst, s))
    while work:
        n, s = work.pop()
        if (n.id, s) in seen:
            continue
        seen.add((n.id, s))
        if len(seen) > limit:
            from interp import Undecided
            raise Undecided("too many states")
        s = events(s, n, None, n.events)
        if s is None:
            continue
        for e in n.succs:
            s2 = events(s, n, e, e.events)
            if s2 is not None and e.dst is not None:
                work.append((e.dst, s2))
    return len(seen)
