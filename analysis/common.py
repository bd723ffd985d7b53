"""Extraction of the current tree, anchors, reporting and evidence."""
import re
import shutil
import json
import os
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD") or os.path.join(VERIF, "build")
EVIDENCE = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
DRIVER = os.path.join(VERIF, "extractor", "target", "release", "mirdump")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)

from mirdb import DB, tyname, tystr, subst   # noqa: E402
from interp import Interp, Opts, Undecided, State   # noqa: E402
from terms import *   # noqa: E402,F403


class BuildFailure(Exception):
    pass


def sh(cmd, env=None, cwd=None, timeout=600):
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def toolchain():
    r = sh(["rustc", "+nightly", "--print", "sysroot"])
    if r.returncode:
        raise BuildFailure("no nightly toolchain: " + r.stdout[-500:])
    return r.stdout.strip()


def driver_env(out, crates, target, debug=False):
    return dict(LD_LIBRARY_PATH=os.path.join(toolchain(), "lib"), RUSTC_WORKSPACE_WRAPPER=DRIVER, MIRDUMP_CRATES=crates,
                MIRDUMP_OUT=out, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true", RUSTFLAGS=f"--cap-lints=warn -C debug-assertions={'on' if debug else 'off'} -C overflow-checks=on")


def build_driver():
    src = [os.path.join(VERIF, "extractor", "src", f) for f in ("main.rs", "json.rs")]
    if os.path.exists(DRIVER) and all(os.path.getmtime(DRIVER) >= os.path.getmtime(f) for f in src):
        return
    r = sh(["cargo", "+nightly", "build", "--release", "--offline"], cwd=os.path.join(VERIF, "extractor"), timeout=1500)
    if r.returncode or not os.path.exists(DRIVER):
        raise BuildFailure("the extractor does not build:\n" + r.stdout[-3000:])


def dump_crate(path, crate, features=(), extra=(), fresh=(), target=None, out="dump", debug=False):
    """Compile a crate through the extractor and return the path of its dump. Crates named in `fresh`
    are always recompiled."""
    build_driver()
    out = os.path.join(BUILD, out)
    os.makedirs(out, exist_ok=True)
    f = os.path.join(out, crate + ".json")
    try:
        os.remove(f)
    except FileNotFoundError:
        pass
    env = driver_env(out, crate, os.path.join(BUILD, "target-" + (target or crate)), debug)
    for p in (crate,) + tuple(fresh):
        sh(["cargo", "+nightly", "clean", "--offline", "-p", p], env=env, cwd=path)
    cmd = ["cargo", "+nightly", "check", "--offline", "--lib"]
    if features:
        cmd += ["--features", ",".join(features)]
    r = sh(cmd + list(extra), env=env, cwd=path, timeout=800)
    if r.returncode or not os.path.exists(f):
        raise BuildFailure(f"{crate} does not compile under the extractor:\n" + r.stdout[-4000:])
    return f


def models_dump():
    src = os.path.join(VERIF, "models", "src", "lib.rs")
    f = os.path.join(BUILD, "dump", "models.json")
    build_driver()
    if os.path.exists(f) and os.path.getmtime(f) >= max(os.path.getmtime(src), os.path.getmtime(DRIVER)):
        return f
    return dump_crate(os.path.join(VERIF, "models"), "models")


# configurations of the crate beside the one with both runtimes: (features, debug assertions)
CONFIGS = {"full": (("tokio", "smol"), False), "nightly": (("tokio", "smol", "nightly"), False), "debug": (("tokio", "smol"), True),
           "tokio": (("tokio",), False), "smol": (("smol",), False), "bare": ((), False)}


def nightly_source():
    """A copy of the current tree that the installed nightly compiler accepts with the `nightly` feature: the crate was written
    for an older one, since when two feature gates and the trait std::marker::FnPtr were removed and Infallible became another
    name of the never type. The trait is replaced by one with the same method for function pointers of every arity."""
    dst = os.path.join(BUILD, "nightly-src")
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(REPO, dst, ignore=shutil.ignore_patterns("target", ".git", "tests", "examples", "benches"), symlinks=True)

    def edit(f, *pairs):
        f = os.path.join(dst, f)
        if os.path.exists(f):
            with open(f) as h:
                t = h.read()
            for a, b in pairs:
                t = t.replace(a, b)
            with open(f, "w") as h:
                h.write(t)
    shim = ["", "#[doc(hidden)]", "pub mod analysis_fn_ptr {", "    pub trait FnPtr: Copy + Clone { fn addr(self) -> *const (); }"]
    for n in range(21):
        for u in ("", "unsafe "):
            ts = [f"A{i}" for i in range(n)]
            shim.append(f"    impl<{''.join(t + ', ' for t in ts)}R> FnPtr for {u}fn({', '.join(ts)}) -> R {{ fn addr(self) -> *const () {{ self as *const () }} }}")
    shim.append("}")
    edit("src/lib.rs", ("doc_auto_cfg,", ""), ("fn_ptr_trait,", ""))
    with open(os.path.join(dst, "src/lib.rs"), "a") as h:
        h.write("\n".join(shim) + "\n")
    edit("src/builtins.rs", ("impl_pod!(for !);", ""))
    for f in os.listdir(os.path.join(dst, "src")):
        if f.endswith(".rs") and f != "lib.rs":
            edit("src/" + f, ("std::marker::FnPtr", "crate::analysis_fn_ptr::FnPtr"))
    for f in ("tests", "examples"):
        os.makedirs(os.path.join(dst, f), exist_ok=True)
    with open(os.path.join(dst, "Cargo.toml")) as h:
        t = h.read()
    # targets that need the folders left out
    t = re.sub(r"(?m)^\[\[(test|example|bench)\]\]\n(?:(?!\[).*\n?)*", "", t)
    with open(os.path.join(dst, "Cargo.toml"), "w") as h:
        h.write(t)
    return dst


def extract(config="full"):
    """Dump of the current working tree of /repo, in one of its configurations."""
    m = models_dump()
    features, debug = CONFIGS[config]
    if config == "full":
        return [dump_crate(REPO, "crossmist", features=features, fresh=("crossmist-derive",)), m]
    src = nightly_source() if config == "nightly" else REPO
    return [dump_crate(src, "crossmist", features=features, fresh=("crossmist-derive",), target="crossmist-" + config, out="dump-" + config, debug=debug), m]


def witness(name):
    """(dump of a witness crate compiled against the current tree, None), or (None, what the compiler said)."""
    src = os.path.join(VERIF, "witness", name)
    dst = os.path.join(BUILD, "witness", name)
    os.makedirs(dst, exist_ok=True)
    with open(os.path.join(src, "Cargo.toml")) as f:
        t = f.read()
    t = t.replace('path = "/repo"', f'path = "{REPO}"').replace('path = "lib.rs"', f'path = "{os.path.join(src, "lib.rs")}"')
    with open(os.path.join(dst, "Cargo.toml"), "w") as f:
        f.write(t)
    lock = os.path.join(REPO, "Cargo.lock")
    if os.path.exists(lock):
        with open(lock) as f, open(os.path.join(dst, "Cargo.lock"), "w") as o:
            o.write(f.read())
    try:
        return dump_crate(dst, "witness_" + name, fresh=("crossmist", "crossmist-derive"), target="witness"), None
    except BuildFailure as e:
        return None, str(e)


class Analysis:
    """The program of the current tree with helpers to find its public parts."""

    def __init__(self, paths, config="full"):
        self.db = DB(paths)
        self.config = config
        self.graphs = {}
        self.functions = set()
        self.states = 0

    # ---- anchors
    def adt(self, *suffixes):
        for s in suffixes:
            for k in self.db.adts:
                if k == s or k.endswith("::" + s):
                    return k
        return None

    def method(self, adt_suffix, name, trait=None):
        """Key of a method of a local type: inherent, or of a trait impl."""
        out = []
        for k, d in self.db.defs.items():
            if d.get("name") != name or d.get("container") not in ("inherent", "impl") or k not in self.db.bodies:
                continue
            st = d.get("self_ty", ("?",))
            if st[0] != "adt" or not (st[1] == adt_suffix or st[1].endswith("::" + adt_suffix)):
                continue
            if (trait is None) != (d["container"] == "inherent"):
                continue
            if trait is not None and not (d.get("trait_item") or "").split("::")[-2:-1] == [trait]:
                continue
            out.append(k)
        return out[0] if out else None

    def fn(self, *suffixes):
        for s in suffixes:
            for k in self.db.bodies:
                if k == s or k.endswith("::" + s):
                    return k
        return None

    def streams(self):
        """[(short name, type, is blocking)] of the channel back ends."""
        out = []
        for t, ims in self.db.impls_by_trait.items():
            if t.split("::")[-1] != "AsyncStream":
                continue
            for im in ims:
                ty = im["args"][0]
                b = None
                for name, k, kind, _ in im["items"]:
                    if name == "IS_BLOCKING":
                        v = Interp(self.db).const_body(k, {})
                        if v is not None and v.op == "int":
                            b = bool(v.a[0])
                out.append((tyname(ty), ty, b))
        return sorted(out)

    def env_for(self, key, **named):
        """Generic environment by parameter name."""
        env = {}
        for g in (self.db.defs.get(key) or {}).get("generics") or []:
            if g[0] in named:
                env[g[1]] = named[g[0]]
        return env

    def run(self, key, env=None, args=None, init=None, **opts):
        ck = (key, tuple(sorted((env or {}).items())), tuple(args or ()), id(init) if init else None, tuple(sorted((k, v if isinstance(v, int) else id(v)) for k, v in opts.items())))
        if ck in self.graphs:
            return self.graphs[ck][0]
        ip = Interp(self.db, Opts(**opts))
        g = ip.run(key, env=env, args=args, init=init)
        g.key = key
        self.functions |= {c.key for c in ip.ctxs}
        self.states += len(g.nodes)
        g.incomplete = ip.incomplete
        self.graphs[ck] = (g, opts, init)
        return g


def all_events(g):
    for n in g.nodes:
        for e in n.events:
            yield e
        for x in n.succs:
            for e in x.events:
                yield e


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.violations = []
        self.undecided = []
        self.obligations = {}
        self.anchors = {}
        self.samples = []
        self.notes = []
        self.configs = {}

    def anchor(self, what, found, need=1):
        """Something the rules hang on; its absence is a violation (the analysis must not pass vacuously)."""
        n = len(found) if isinstance(found, (list, tuple, set, dict)) else (0 if found is None or found is False else 1 if found is True else int(found) if isinstance(found, int) else 1)
        self.anchors[what] = n
        if n < need:
            self.violation("anchor:" + what, "anchor", f"{what}: expected at least {need}, found {n}", None)
            return False
        return True

    def oblige(self, rule, ok, subject, ev=None, detail="", path=None, key=None):
        d = self.obligations.setdefault(rule, dict(checked=0, failed=0))
        d["checked"] += 1
        if ok is None:
            d["undecided"] = d.get("undecided", 0) + 1
            self.undecided.append(f"{rule}: {subject}: {detail}"[:400])
            return None
        if not ok:
            d["failed"] += 1
            self.violation(key or f"{rule}:{subject}", rule, detail or subject, ev, path)
        elif len(self.samples) < 40:
            self.samples.append(f"{rule}: {subject}"[:200])
        return ok

    def absorb(self, other, config, anchors):
        """Take over what was found in another configuration of the crate; the absence of something counts only where the
        configuration is meant to have it."""
        n = dict(obligations=sum(d["checked"] for d in other.obligations.values()), undecided=len(other.undecided), anchors=other.anchors)
        self.configs[config] = n
        for r, d in other.obligations.items():
            mine = self.obligations.setdefault(r, dict(checked=0, failed=0))
            for k, v in d.items():
                mine[k] = mine.get(k, 0) + v
        known = {v["key"] for v in self.violations}
        for v in other.violations:
            if v["key"] in known or v["rule"] == "anchor" and not anchors:
                continue
            self.violations.append(dict(v, what=f"{v['what']} (in configuration {config})"))
        self.undecided += [f"{u} (in configuration {config})" for u in other.undecided if u not in self.undecided]

    def borrow(self, other, rules):
        """Take over what the given rules of another property found."""
        for r in rules:
            if r in other.obligations:
                self.obligations[r] = other.obligations[r]
        self.violations += [v for v in other.violations if v["rule"] in rules]
        self.undecided += [u for u in other.undecided if u.split(":")[0] in rules]

    def violation(self, key, rule, what, ev, path=None):
        where = None
        if ev is not None:
            where = dict(file=ev.file, line=ev.line, function=ev.where, construct=str(ev.name), via=list(ev.ctx.chain) if ev.ctx is not None else None)
        for v in self.violations:
            if v["key"] == key:
                v["count"] += 1
                return
        self.violations.append(dict(key=key, rule=rule, what=str(what)[:1500], where=where, path=path, count=1))


def known_findings():
    """{(property, key): text} of defects recorded but not repaired."""
    f = os.path.join(VERIF, "known-findings.txt")
    out = {}
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith("finding: property="):
                head, _, what = l[len("finding: "):].partition(" :: ")
                parts = dict(p.split("=", 1) for p in head.split(" ", 1) if "=" in p)
                out[(parts["property"], parts["key"])] = what
    return out


def finish(rep, A, tier, t0, explanation, rule_texts=None, extra=None, assumptions=()):
    """Print the verdict, write evidence, return the exit code."""
    known = known_findings()
    new, old = [], []
    for v in rep.violations:
        (old if (rep.prop, v["key"]) in known else new).append(v)
    ev = dict(
        property=rep.prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level="other",
        coverage=dict(
            explanation=explanation,
            rules=rule_texts or {},
            anchors=rep.anchors,
            obligations=rep.obligations,
            obligations_checked=sum(d["checked"] for d in rep.obligations.values()),
            functions_analysed=len(A.functions) if A else 0,
            functions=sorted(A.functions)[:400] if A else [],
            states_explored=A.states if A else 0,
            undecided=rep.undecided[:60],
            undecided_count=len(rep.undecided),
            samples=rep.samples,
            notes=rep.notes,
            configurations=dict({"full": "tokio and smol, release"}, **rep.configs),
        ),
        wall_s=round(time.time() - t0, 2),
        violations=[dict(key=v["key"], rule=v["rule"], what=v["what"], where=v["where"]) for v in new],
        known_findings=[v["key"] for v in old],
        assumptions=list(assumptions) or ["see DESIGN.md, section Assumptions"],
    )
    if extra:
        ev["coverage"].update(extra)
    d = EVIDENCE
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, rep.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for v in old:
        print(f"KNOWN-FINDING: property={rep.prop} {known[(rep.prop, v['key'])]}")
    if new:
        rp = os.path.join(d, rep.prop + ".replay.json")
        with open(rp, "w") as f:
            json.dump(dict(property=rep.prop, rerun=f"python3 /verif/analysis/run.py {rep.prop}", violations=new), f, indent=1, default=str)
        for v in new[:20]:
            w = v["where"]
            loc = f"{w['file']}:{w['line']} in {w['function']}" if w else ""
            print(f"  [{v['rule']}] {v['what']} {loc}")
        print(f"VIOLATION property={rep.prop} replay={rp}")
        return 1
    print(f"{rep.prop}: {ev['coverage']['obligations_checked']} obligations hold, {len(A.functions) if A else 0} functions analysed, {len(rep.undecided)} undecided, {ev['wall_s']} s")
    return 0
