"""Misuse that does not compile: C24.

Each case of witness/reject/cases.txt is a pair of programs that differ in the marked lines. The compiler decides both against
the crate as it is now: the correct one has to be accepted and the misuse rejected. The reason of a rejection is not compared
(the compiler's wording is no guarantee), which the twin makes up for: everything but the misuse is known to compile.
"""
import json as _json
import re
from concurrent.futures import ThreadPoolExecutor
from types import SimpleNamespace
from common import *

RULES = {"C24": {
    "R1": "What cannot be transferred (addresses, closures, thread handles, values of types that were not declared) cannot be sent.",
    "R2": "A container, a derived type, a wrapper can be transferred only if what it contains can.",
    "R3": "A type is plain data only if its bytes mean the same in another process and it owns nothing.",
    "R4": "Rebuilding values from bytes or handles, and declaring types as transferable, takes unsafe.",
    "R5": "An address is shared between processes only if it belongs to a static item or a function of the program.",
    "R6": "A closure that has moved its captures in can be called again only if they can be copied or borrowed.",
    "R7": "What is started as a process takes and returns transferable values, and no references.",
    "R8": "An end of a channel belongs to one owner and is used by one caller at a time.",
}}
EXPLAIN = {"C24": "every program of the named shapes (compile-fail witnesses, each with a twin that compiles) is decided by the compiler's type and "
                  "borrow checker against the crate as it is in the working tree"}


# what belongs to one process: addresses, functions by address, threads and what is shared between them
UNTRANSFERABLE = ["*const u8", "*mut String", "&'static u8", "&'static str", "&'static mut u8", "fn()", "unsafe extern \"C\" fn(u8) -> u8",
                  "std::ptr::NonNull<u8>", "std::sync::atomic::AtomicPtr<u8>", "std::rc::Weak<u8>", "std::sync::Weak<u8>", "std::thread::JoinHandle<()>",
                  "std::sync::MutexGuard<'static, u8>", "std::sync::mpsc::Sender<u8>", "std::task::Waker", "std::pin::Pin<&'static u8>",
                  "Box<dyn Fn() -> u8>", "Box<&'static u8>", "std::slice::Iter<'static, u8>", "super::Undeclared"]

PLACES = {
    "channel": "pub fn f(v: @) -> Option<@> { let (mut s, mut r) = crossmist::channel::<@>().unwrap(); s.send(&v).unwrap(); r.recv().unwrap() }",
    "duplex out": "pub fn f(v: @) { let (mut s, _) = crossmist::duplex::<@, u8>().unwrap(); s.send(&v).unwrap(); }",
    "duplex in": "pub fn f() -> Option<@> { let (mut s, _) = crossmist::duplex::<u8, @>().unwrap(); s.recv().unwrap() }",
    "tokio channel": "pub async fn f(v: @) -> Option<@> { let (mut s, mut r) = crossmist::tokio::channel::<@>().unwrap(); s.send(&v).await.unwrap(); r.recv().await.unwrap() }",
    "tokio duplex out": "pub async fn f(v: @) { let (mut s, _) = crossmist::tokio::duplex::<@, u8>().unwrap(); s.send(&v).await.unwrap(); }",
    "tokio duplex in": "pub async fn f() -> Option<@> { let (mut s, _) = crossmist::tokio::duplex::<u8, @>().unwrap(); s.recv().await.unwrap() }",
    "smol channel": "pub async fn f(v: @) -> Option<@> { let (mut s, mut r) = crossmist::smol::channel::<@>().unwrap(); s.send(&v).await.unwrap(); r.recv().await.unwrap() }",
    "smol duplex out": "pub async fn f(v: @) { let (mut s, _) = crossmist::smol::duplex::<@, u8>().unwrap(); s.send(&v).await.unwrap(); }",
    "smol duplex in": "pub async fn f() -> Option<@> { let (mut s, _) = crossmist::smol::duplex::<u8, @>().unwrap(); s.recv().await.unwrap() }",
    "sender": "pub fn f(s: &mut crossmist::Sender<@>, v: &@) { let _ = s.send(v); }",
    "receiver": "pub fn f(s: &mut crossmist::Receiver<@>) -> Option<@> { s.recv().unwrap() }",
    "duplex sender": "pub fn f(s: &mut crossmist::Duplex<@, u8>, v: &@) { let _ = s.send(v); }",
    "duplex receiver": "pub fn f(s: &mut crossmist::Duplex<u8, @>) -> Option<@> { s.recv().unwrap() }",
    "request": "pub fn f(s: &mut crossmist::Duplex<u8, @>) -> @ { s.request(&1).unwrap() }",
    "tokio sender": "pub async fn f(s: &mut crossmist::tokio::Sender<@>, v: &@) { let _ = s.send(v).await; }",
    "smol receiver": "pub async fn f(s: &mut crossmist::smol::Receiver<@>) -> Option<@> { s.recv().await.unwrap() }",
    "child": "pub fn f(s: crossmist::Child<@>) -> @ { s.join().unwrap() }",
    "tokio child": "pub async fn f(s: crossmist::tokio::Child<@>) -> @ { s.join().await.unwrap() }",
    "smol child": "pub async fn f(s: crossmist::smol::Child<@>) -> @ { s.join().await.unwrap() }",
    "delayed": "pub fn f(v: @) { let _ = crossmist::channel::<crossmist::Delayed<@>>(); let _ = crossmist::Delayed::new(v); }",
    "argument": "#[crossmist::func] pub fn g(a: @) -> u8 { let _ = a; 0 } pub fn f(v: @) { let _ = g.spawn(v); }",
    "second argument": "#[crossmist::func] pub fn g(b: u8, a: @) -> u8 { let _ = a; b } pub fn f(v: @) { let _ = g.spawn(1, v); }",
    "result": "#[crossmist::func] pub fn g() -> @ { loop {} } pub fn f() { let _ = g.run(); }",
    "tokio argument": "#[crossmist::func(tokio)] pub async fn g(a: @) -> u8 { let _ = a; 0 } pub async fn f(v: @) { let _ = g.spawn_tokio(v).await; }",
    "tokio result": "#[crossmist::func(tokio)] pub async fn g() -> @ { loop {} } pub async fn f() { let _ = g.run_tokio().await; }",
    "smol argument": "#[crossmist::func(smol)] pub async fn g(a: @) -> u8 { let _ = a; 0 } pub async fn f(v: @) { let _ = g.spawn_smol(v).await; }",
    "smol result": "#[crossmist::func(smol)] pub async fn g() -> @ { loop {} } pub async fn f() { let _ = g.run_smol().await; }",
    "capture": "pub fn f(v: @) { let _ = crossmist::lambda! { move(v: @) || -> u8 { let _ = v; 0 } }; }",
    "borrowed capture": "pub fn f(v: @) { let _ = crossmist::lambda! { move(&v: &@) || -> u8 { let _ = v; 0 } }; }",
    "mutable capture": "pub fn f(v: @) { let _ = crossmist::lambda! { move(&mut v: &mut @) || -> u8 { let _ = v; 0 } }; }",
    "field": "#[derive(crossmist::Object)] pub struct S { a: u8, b: @ } impl S { pub fn f(&self) -> &@ { let _ = self.a; &self.b } }",
    "tuple field": "#[derive(crossmist::Object)] pub struct S(pub @, pub u8);",
    "only field": "#[derive(crossmist::Object)] pub struct S(pub @);",
    "variant": "#[derive(crossmist::Object)] pub enum S { A, B(u8, @), C(u8) }",
    "named variant": "#[derive(crossmist::Object)] pub enum S { A, B { x: @ } }",
    "object": "fn need<T: crossmist::Object>() {} pub fn f() { need::<@>() }",
    "boxed trait object": "pub trait Tr: crossmist::Object {} impl Tr for @ {} pub fn f(v: @) -> Box<dyn Tr> { Box::new(v) }",
    "message": "pub fn f(v: @) { let mut s = crossmist::Serializer::new(); s.serialize(&v); }",
}

CONTAINERS = ["Vec<@>", "Box<@>", "Option<@>", "Result<@, u8>", "Result<u8, @>", "[@; 3]", "[@; 0]", "(@,)", "(u8, @)", "(@, u8, u8)",
              "(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, @)", "std::rc::Rc<@>", "std::sync::Arc<@>", "std::collections::VecDeque<@>",
              "std::collections::LinkedList<@>", "std::collections::BinaryHeap<@>", "std::collections::BTreeSet<@>", "std::collections::HashSet<@>",
              "std::collections::BTreeMap<@, u8>", "std::collections::BTreeMap<u8, @>", "std::collections::HashMap<@, u8>",
              "std::collections::HashMap<u8, @>", "Vec<Option<@>>", "Option<Box<@>>", "std::rc::Rc<Vec<@>>", "Box<Box<@>>", "crossmist::Delayed<@>"]


def matrix():
    """(rule, name, text with a type left out): everywhere something that cannot be transferred might be accepted."""
    for k, t in PLACES.items():
        yield "R2" if "derive" in t else "R7" if "func" in t else "R6" if "lambda" in t else "R1", k, t
    for c in CONTAINERS:
        yield "R2", "inside " + c.replace("@", "_"), "fn need<T: crossmist::Object>() {} pub fn f() { need::<%s>() }" % c


def module(t, ty):
    """One program of several: a type that stands for everything that was not declared, and the use in a module of its own."""
    return "pub struct Undeclared(u8);\npub mod m {\n" + t.replace("@", ty) + "\n}\n"


def cases():
    out = []
    cur = None
    with open(os.path.join(VERIF, "witness", "reject", "cases.txt")) as f:
        for line in f:
            line = line.rstrip("\n")
            if line.startswith("=== "):
                rule, title = line[4:].split(" ", 1)
                cur = dict(rule=rule, title=title, good=[], bad=[])
                out.append(cur)
            elif cur is not None:
                if line.startswith("+ "):
                    cur["good"].append(line[2:])
                elif line.startswith("- "):
                    cur["bad"].append(line[2:])
                else:
                    cur["good"].append(line)
                    cur["bad"].append(line)
    return out


def externs():
    """Arguments of the compiler that make the crate available, as cargo has built it for the witness crate."""
    path = os.path.join(BUILD, "witness", "reject")
    target = os.path.join(BUILD, "target-witness")
    env = driver_env(os.path.join(BUILD, "dump"), "witness_reject", target)
    r = sh(["cargo", "+nightly", "check", "--offline", "--lib", "--message-format=json", "-q"], env=env, cwd=path)
    found = {}
    dirs = set()
    for line in r.stdout.splitlines():
        if not line.startswith("{"):
            continue
        m = _json.loads(line)
        if m.get("reason") == "compiler-artifact":
            for f in m["filenames"]:
                dirs.add(os.path.dirname(f))
                if f.endswith(".rmeta") and m["target"]["name"] in ("crossmist", "tokio"):
                    found[m["target"]["name"]] = f
    if set(found) != {"crossmist", "tokio"}:
        raise BuildFailure("the libraries of the witness crate are not found: " + r.stdout[-1000:])
    a = []
    for d in sorted(dirs):
        a += ["-L", "dependency=" + d]
    for k, v in found.items():
        a += ["--extern", f"{k}={v}"]
    return a


def compile_all(progs):
    """[(source, accepted, message)] in the order of the sources."""
    out = os.path.join(BUILD, "reject")
    os.makedirs(out, exist_ok=True)
    args = externs()

    def one(x):
        i, text = x
        src = os.path.join(out, f"p{i}.rs")
        with open(src, "w") as f:
            f.write(text)
        r = sh(["rustc", "+nightly", "--edition", "2021", "--crate-type", "lib", "--crate-name", f"p{i}", "--emit=metadata", "--cap-lints=warn",
                "-A", "warnings", "-o", os.path.join(out, f"p{i}.rmeta"), src] + args)
        for f in (src, os.path.join(out, f"p{i}.rmeta")):
            if os.path.exists(f):
                os.remove(f)
        return r.returncode == 0, r.stdout
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, enumerate(progs)))


def short(err):
    for l in err.splitlines():
        if l.startswith("error"):
            return l.strip()[:240]
    return err.strip()[-200:]


HIDDEN = re.compile(r"\b(imp|handles|internals|subprocess|delayed|pod|serde)::|deserialize_on_heap")


def public(db, key):
    """Nameable from another crate, or an item of a trait implementation (which is found without its path)."""
    d = db.defs.get(key)
    if d.get("container") == "impl":
        return True
    while d is not None:
        if d.get("vis") not in (None, "Public"):
            return False
        key = d.get("parent")
        d = db.defs.get(key)
    return True


def within(t, names):
    """Parts of a type that are one of the named types, outermost first; projections are somebody else's types."""
    if not isinstance(t, tuple) or not t:
        return
    if t[0] == "alias":
        return
    if t[0] == "adt":
        if t[1] in names:
            yield t
        for a in t[2]:
            yield from within(a, names)
        return
    for x in t[1:]:
        if isinstance(x, tuple):
            yield from within(x, names) if x and isinstance(x[0], str) else (y for z in x for y in within(z, names))


def directions(db, ends, t):
    """(types sent, types received) of a channel end."""
    name = t[1].rsplit("::", 1)[1]
    args = [a for a in t[2] if not (isinstance(a, tuple) and a and a[0] in ("region", "const"))]
    if name == "Sender":
        return {args[-1]}, set()
    if name == "Receiver":
        return set(), {args[-1]}
    return {args[-2]}, {args[-1]}


def signatures(A, rep):
    """R4/R5 on the signatures of what can be called without unsafe: an end of a channel comes out only if it was made anew or came
    in with the same type of messages; a static reference or function only if one came in."""
    db = A.db
    ends = {k for k in db.adts if k.split("::")[0] == "crossmist" and k.rsplit("::", 1)[1] in ("Sender", "Receiver", "Duplex")}
    caps = {k for k in db.adts if k.split("::")[0] == "crossmist" and k.rsplit("::", 1)[1] in ("StaticRef", "StaticFn")}
    rep.anchor("types of channel ends", len(ends), 6)
    rep.anchor("types that hold an address", len(caps), 2)
    n = 0
    for key, d in db.defs.items():
        if not d.get("local") or "inputs" not in d or d.get("unsafe") or not key.startswith("crossmist::") or not public(db, key):
            continue
        name = key.replace("crossmist::", "", 1)
        here = SimpleNamespace(file=d.get("file"), line=d.get("line"), name=name, where=name, ctx=None)
        out = list(within(d["output"], ends | caps))
        if not out:
            continue
        n += 1
        into = [x for i in d["inputs"] for x in within(i, ends | caps)]
        for c in out:
            if c[1] in caps:
                rep.oblige("R5-signatures", c in into, name, here,
                           f"{name} makes a {tystr(c)} out of {', '.join(map(tystr, d['inputs'])) or 'nothing'} and can be called without unsafe",
                           key=f"R5-signatures:{d.get('name')}:{tystr(c)}")
                continue
            s, r = directions(db, ends, c)
            cin = [directions(db, ends, x) for x in into if x[1] in ends]
            if d["inputs"]:
                ok = any(s <= s0 and r <= r0 for s0, r0 in cin)
                what = f"{name} makes a {tystr(c)} out of {', '.join(map(tystr, d['inputs']))} and can be called without unsafe"
            else:
                ok = any(s == r0 and r == s0 for x in out if x is not c for s0, r0 in [directions(db, ends, x)])
                what = f"{name} gives a {tystr(c)} whose other end has another type of messages"
            rep.oblige("R4-signatures", ok, name, here, what,
                       key=f"R4-signatures:{d.get('name')}:{tystr(c)}")
    rep.anchor("safe functions that give an end or an address", n, 12)


def check(A, rep, prop, tier):
    if A is not None:
        signatures(A, rep)
    f, err = witness("reject")
    if f is None:
        raise BuildFailure(err)
    cs = cases()
    ms = list(matrix())
    progs = ["\n".join(c[k]) + "\n" for c in cs for k in ("good", "bad")]
    n = len(progs)
    progs += [module(t, ty) for _, _, t in ms for ty in ["u8"] + UNTRANSFERABLE]
    rs = compile_all(progs)
    good = bad = 0
    codes = {}
    for i, c in enumerate(cs):
        (gok, gerr), (bok, berr) = rs[2 * i], rs[2 * i + 1]
        name = c["title"]
        if not gok:
            hidden = HIDDEN.search("\n".join(c["good"]))
            rep.oblige(c["rule"] + "-accepted", None if hidden else False, name, None,
                       f"{name}: the correct program does not compile: {short(gerr)}", key=f"{c['rule']}-accepted:{name}")
            continue
        good += 1
        rep.oblige(c["rule"] + "-accepted", True, name)
        m = re.search(r"error\[(E\d+)\]", berr)
        codes[m.group(1) if m else "other"] = codes.get(m.group(1) if m else "other", 0) + (not bok)
        bad += not bok
        text = " / ".join(x.strip() for x in c["bad"] if x not in c["good"])[:300]
        rep.oblige(c["rule"] + "-rejected", not bok, name, None, f"{name}: the misuse compiles: {text}", key=f"{c['rule']}-rejected:{name}")
    per = 1 + len(UNTRANSFERABLE)
    misuse = 0
    for i, (rule, name, t) in enumerate(ms):
        part = rs[n + i * per:n + (i + 1) * per]
        if not part[0][0]:
            rep.oblige(rule + "-accepted", None if HIDDEN.search(t) else False, name, None,
                       f"{name}: the correct program does not compile: {short(part[0][1])}", key=f"{rule}-accepted:{name}")
            continue
        good += 1
        rep.oblige(rule + "-accepted", True, name)
        for ty, (ok, e) in zip(UNTRANSFERABLE, part[1:]):
            misuse += not ok
            rep.oblige(rule + "-rejected", not ok, f"{name}: {ty}", None, f"{name}: a program that transfers {ty} compiles: {t.replace('@', ty)}",
                       key=f"{rule}-rejected:{name}:{ty}")
    rep.notes.append(f"{len(ms)} places where a value is transferred, {len(UNTRANSFERABLE)} kinds of values that belong to one process: {misuse} programs rejected")
    rep.anchor("correct programs that compile", good, 100)
    rep.notes.append(f"{len(cs)} cases; rejections by kind: " + ", ".join(f"{k} {v}" for k, v in sorted(codes.items())))


if __name__ == "__main__":
    rep = Report("C24")
    check(None, rep, "C24", "quick")
    for x in rep.undecided + rep.violations:
        print(str(x)[:300])
