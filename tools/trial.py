#!/usr/bin/env python3
"""trial.py [-j N] [--all] SEED_OR_DIFF...: run checks against patches in scratch copies. For a planted bug its own property's
check runs (with --all every check); for a plain .diff every check."""
import json, os, subprocess, sys, shutil
from concurrent.futures import ThreadPoolExecutor
import queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
j = 4
if "-j" in args:
    i = args.index("-j"); j = int(args[i + 1]); del args[i:i + 2]
allp = "--all" in args
args = [a for a in args if a != "--all"]
claimed = [c["property"] for c in json.load(open(os.path.join(V, "MANIFEST.json")))["checks"]]
props = claimed
for a in list(args):
    if a.startswith("--props="):
        props = a.split("=")[1].split(","); args.remove(a); allp = True
if not args:
    args = sorted(os.listdir(os.path.join(V, "seeded")))
ws = queue.Queue()
root = os.environ.get("TRIAL_ROOT", "/tmp/trial")
for i in range(j):
    w = f"{root}/{i}"
    shutil.rmtree(w + "/repo", ignore_errors=True)
    os.makedirs(w, exist_ok=True)
    subprocess.run(["git", "clone", "-q", "/repo", w + "/repo"], check=True)
    if os.path.exists("/repo/Cargo.lock") and not os.path.exists(w + "/repo/Cargo.lock"):
        shutil.copy("/repo/Cargo.lock", w + "/repo/Cargo.lock")
    if not os.path.exists(w + "/build"):
        shutil.copytree(V + "/build", w + "/build", symlinks=True)
    else:
        subprocess.run(["cp", "-a", V + "/build/dump/models.json", w + "/build/dump/"])
    ws.put(w)


def one(a):
    w = ws.get()
    try:
        repo = w + "/repo"
        subprocess.run("git checkout -q -- . && git clean -fdq -e Cargo.lock -e target", shell=True, cwd=repo)
        if os.path.exists(a):
            diff, ps = os.path.abspath(a), props
            if os.path.basename(a).startswith("m_c") and not allp:   # a mutant of one property
                ps = ["C" + os.path.basename(a)[3:5]]
        else:
            d = os.path.join(V, "seeded", a)
            diff = os.path.join(d, "patch.diff")
            ps = props if allp else [json.load(open(d + "/meta.json"))["property"]]
        if diff != "/dev/null":
            r = subprocess.run(["git", "apply", diff], cwd=repo, capture_output=True, text=True)
            if r.returncode:
                return f"{a}: DOES NOT APPLY {r.stderr[:200]}"
        out = []
        env = dict(os.environ, VERIF_REPO=repo, VERIF_BUILD=w + "/build", VERIF_EVIDENCE=w + "/evidence")
        for p in ps:
            if p not in claimed:
                out.append(f"   {p}: not claimed")
                continue
            r = subprocess.run([sys.executable, V + "/analysis/run.py", p], env=env, capture_output=True, text=True, cwd=V)
            t = {0: "quiet", 1: "CAUGHT"}.get(r.returncode, f"ERROR {r.returncode}")
            if r.returncode == 0:
                und = [json.load(open(f"{x}/{p}.json"))["coverage"]["undecided"] for x in (w + "/evidence", V + "/evidence")]
                new = [u for u in und[0] if u not in und[1]]
                if new:
                    t += f" {len(new)} newly undecided: " + " || ".join(u[:150] for u in new[:2])
                elif len(ps) > 1:
                    continue
            det = [l.strip()[:230] for l in r.stdout.splitlines() if l.startswith("  [")]
            out.append(f"   {p}: {t} " + ("\n        ".join(det[:3]) if r.returncode == 1 else "" if r.returncode == 0 else r.stderr[-300:]))
        return a + ":\n" + "\n".join(out)
    finally:
        ws.put(w)


with ThreadPoolExecutor(j) as ex:
    for r in ex.map(one, args):
        print(r, flush=True)
