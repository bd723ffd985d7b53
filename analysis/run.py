#!/usr/bin/env python3
"""run.py PROPERTY [--tier quick|thorough]: decide one property on the current tree of /repo."""
import importlib
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *   # noqa: E402,F403
import texts   # noqa: E402

# property -> (modules whose check(prop) applies, explanation)
MODULES = {
    "C08": ["check_wire", "check_proc"], "C09": ["check_wire"], "C10": ["check_wire", "check_proc"], "C11": ["check_wire", "check_proc"], "C12": ["check_wire", "check_proc"],
    "C13": ["check_proc"], "C14": ["check_proc"], "C15": ["check_proc"], "C16": ["check_proc"], "C17": ["check_proc"], "C18": ["check_proc", "check_entry"],
    "C19": ["check_proc"],
    "C01": ["check_codec"], "C02": ["check_derive"], "C03": ["check_plain"], "C04": ["check_codec"], "C05": ["check_codec"], "C06": ["check_codec", "check_calls"],
    "C07": ["check_codec"], "C20": ["check_own"], "C21": ["check_calls"], "C22": ["check_func"], "C23": ["check_lambda"], "C24": ["check_reject"], "C25": ["check_codec", "check_calls"],
    "C29": ["check_fail"], "C30": ["check_wire"], "C31": ["check_effects"], "C32": ["check_threads"], "C33": ["check_drop"], "C34": ["check_start"],
}

# rules of other properties that decide part of this one: property -> [(module, property, rules)]
ALSO = {
    "C05": [("check_wire", "C08", ("S1-fds-start", "S1-handles", "S2-next-handles", "S4-marker-handles", "S6-handles-limit", "R9-handles-taken",
                                   "R9-handles-earlier", "R9-handles-delivered", "R9-handles-kept")),
            ("check_wire", "C09", ("W1-resume-handles", "W2-resume-handles")), ("check_wire", "C12", ("E4-truncated-handles",)),
            ("check_proc", "C19", ("H2-handles", "H5-handles")),
            ("check_own", "C20", ("O3-open",))],
    "C13": [("check_proc", "C14", ("P1-files",))],
}


# configurations analysed beside the one with both runtimes (see common.CONFIGS)
QUICK = {"C06": ("nightly",), "C07": ("nightly",), "C21": ("nightly",)}
THOROUGH = ("nightly", "debug", "tokio", "smol", "bare")
# modules that analyse a witness crate, which needs both runtimes
WITNESSED = {"check_derive", "check_func", "check_lambda", "check_reject", "check_entry", "check_threads"}


def decide(A, rep, prop, tier, rules, expl):
    for m, q, only in [(m, prop, None) for m in MODULES[prop]] + ALSO.get(prop, []):
        if A.config != "full" and m in WITNESSED:
            continue
        mod = importlib.import_module(m)
        try:
            if only is None:
                mod.check(A, rep, prop, tier)
            else:
                other = Report(q)
                mod.check(A, other, q, tier)
                rep.borrow(other, only)
                rules.update({r: t for r, t in getattr(mod, "RULES", {}).get(q, {}).items() if r in only})
                continue
        except BuildFailure:
            raise
        except Exception as e:
            # a shape the engine cannot handle: nothing decided by this module beyond what it already recorded
            traceback.print_exc()
            rep.undecided.append(f"{m}: analysis stopped: {type(e).__name__}: {e}")
        rules.update(getattr(mod, "RULES", {}).get(prop, {}))
        rules.update({r: t for r, t in texts.RULES.get(prop, {}).items() if r in rep.obligations})
        if prop in getattr(mod, "EXPLAIN", {}):
            expl.append(mod.EXPLAIN[prop])


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    t0 = time.time()
    rep = Report(prop)
    rules, expl = {}, []
    A = None
    try:
        A = Analysis(extract())
        decide(A, rep, prop, tier, rules, expl)
    except BuildFailure as e:
        # nothing can be said about a tree that does not compile
        print(f"cannot analyse: {e}", file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 3
    for config in (THOROUGH if tier == "thorough" else QUICK.get(prop, ())):
        if all(m in WITNESSED for m in MODULES[prop]):
            continue
        try:
            B = Analysis(extract(config), config)
            other = Report(prop)
            decide(B, other, prop, tier, {}, [])
        except BuildFailure as e:
            rep.undecided.append(f"configuration {config}: does not compile here: {str(e)[-300:]}")
            continue
        rep.absorb(other, config, config in ("nightly", "debug"))
        A.functions |= B.functions
        A.states += B.states
    return finish(rep, A, tier, t0, " ".join(expl + [texts.EXPLAIN[prop]] if prop in texts.EXPLAIN else expl) or "static analysis of the MIR of the current tree", rules)


if __name__ == "__main__":
    threading = __import__("threading")
    threading.stack_size(512 * 1024 * 1024)
    rc = []
    t = threading.Thread(target=lambda: rc.append(main()))
    t.start()
    t.join()
    sys.stdout.flush()
    sys.exit(rc[0] if rc else 3)
