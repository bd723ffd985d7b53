"""Threads: C32. Decided by the compiler's own propagation of Send and Sync over the crate as it is in the working tree.

For each public type and each future the compiler is asked whether it is Send or Sync for *every* type that can be transferred
(generic programs, type-checked once for all instances), and whether it is for values that must stay on one thread.
"""
import re
from common import *
from check_reject import compile_all, short, HIDDEN

RULES = {"C32": {
    "T1": "Ends of channels, children and kill handles can be moved to and shared with other threads, whatever they transfer.",
    "T2": "Futures of receiving and joining can be polled from any thread, whatever they transfer; those of sending and requesting if the value can be shared.",
    "T3": "What holds a value of the user is confined to a thread if the value is.",
    "T4": "Being used on many threads does not allow two of them to use one end of a channel at once.",
}}
EXPLAIN = {"C32": "generic programs that need Send or Sync of each public type and future (and, for values confined to a thread, twins that "
                  "must not compile), decided by the compiler's trait solver against the crate as it is in the working tree"}

FLAVOURS = ["crossmist", "crossmist::tokio", "crossmist::smol"]
# types that cannot leave a thread or be used by two
RC = "std::rc::Rc<u8>"


def ends():
    for c in FLAVOURS:
        yield f"{c}::Sender<@>"
        yield f"{c}::Receiver<@>"
        yield f"{c}::Duplex<@, u8>"
        yield f"{c}::Duplex<u8, @>"
        yield f"{c}::Child<@>"
    yield "crossmist::KillHandle"


NEED = "pub fn need<X: %s>() {}\npub fn need_v<X: %s>(_: X) {}\n"

FUTURES = {
    "Receiver::recv": ("", "pub fn f%s(s: &mut crossmist::%s::Receiver<@>) { need_v(s.recv()) }"),
    "Duplex::recv": ("", "pub fn f%s(s: &mut crossmist::%s::Duplex<u8, @>) { need_v(s.recv()) }"),
    "Child::join": ("", "pub fn f%s(s: crossmist::%s::Child<@>) { need_v(s.join()) }"),
    "Sender::send": (" + Sync", "pub fn f%s(s: &mut crossmist::%s::Sender<@>, v: &@) { need_v(s.send(v)) }"),
    "Duplex::send": (" + Sync", "pub fn f%s(s: &mut crossmist::%s::Duplex<@, u8>, v: &@) { need_v(s.send(v)) }"),
    "Duplex::request": (" + Sync", "pub fn f%s(s: &mut crossmist::%s::Duplex<@, u8>, v: &@) { need_v(s.request(v)) }"),
}

# values that hold a value of the user: name and program with @ for its type
HOLDERS = {
    "Delayed": "pub fn f(v: @) { need_v(crossmist::Delayed::new(v)) }",
    "lambda": "pub fn f(v: @) { let x = crossmist::lambda! { move(v: @) || -> u8 { let _ = v; 0 } }; need_v(x) }",
    "borrowing lambda": "pub fn f(v: @) { let x = crossmist::lambda! { move(&v: &@) || -> u8 { let _ = v; 0 } }; need_v(x) }",
    "mutating lambda": "pub fn f(v: @) { let x = crossmist::lambda! { move(&mut v: &mut @) || -> u8 { let _ = v; 0 } }; need_v(x) }",
    "bound function": "#[crossmist::func] pub fn g(a: @) -> u8 { let _ = a; 0 } pub fn f(v: @) { use crossmist::BindValue; need_v(g.bind_value(v)) }",
    "bound reference": "#[crossmist::func] pub fn g(a: &@) -> u8 { let _ = a; 0 } pub fn f(v: @) { use crossmist::BindRef; need_v(g.bind_ref(v)) }",
    "derived struct": "#[derive(crossmist::Object)] pub struct S { a: @, b: u8 } pub fn f(v: @) { need_v(S { a: v, b: 1 }) }",
}

# (title, correct program, misuse): the misuse needs of the type what it must not have
CONFINED = []


def confined(title, good, bad):
    CONFINED.append((title, good, bad))


for tr in ("Send", "Sync"):
    for k, t in HOLDERS.items():
        confined(f"{k} is not {tr} because of its value", NEED % (tr, tr) + t.replace("@", "u8"), NEED % (tr, tr) + t.replace("@", RC))
    g = "pub fn f<T: crossmist::Object%s>() { need::<crossmist::Delayed<T>>() }"
    confined(f"Delayed of any type is not {tr}", NEED % (tr, tr) + g % " + Send + Sync", NEED % (tr, tr) + g % "")
    other = "Sync" if tr == "Send" else "Send"
    confined(f"Delayed of a type that is only {other} is not {tr}", NEED % (tr, tr) + g % " + Send + Sync", NEED % (tr, tr) + g % (" + " + other))
    for o in ("FnObject", "FnMutObject", "FnOnceObject"):
        use = f"pub fn f() {{ need::<Box<dyn crossmist::{o}<(), Output = u8>>>() }}"
        # the twin only needs that the type exists
        confined(f"a boxed {o} is not {tr}", "pub fn need<X>() {}\n" + use, NEED % (tr, tr) + use)
    use = "pub fn f() { need::<crossmist::Deserializer>() }"
    confined(f"a partly decoded message is not {tr}", "pub fn need<X>() {}\n" + use, NEED % (tr, tr) + use)
    use = "pub fn f(v: @) { let x: &'static @ = Box::leak(Box::new(v)); need_v(unsafe { crossmist::StaticRef::new_unchecked(x) }) }"
    confined(f"a static reference to it is not {tr}", "pub fn need_v<X>(_: X) {}\n" + use.replace("@", RC), NEED % (tr, tr) + use.replace("@", RC))
for m in ("tokio", "smol"):
    for k, (bound, t) in FUTURES.items():
        if bound:
            confined(f"{m}: the future of {k} does not take to another thread a reference that cannot be shared",
                     NEED % ("Send", "Send") + (t % ("<T: crossmist::Object + Sync>", m)).replace("@", "T"),
                     NEED % ("Send", "Send") + (t % ("<T: crossmist::Object + Send>", m)).replace("@", "T"))
            confined(f"{m}: the future of {k} does not take to another thread a reference to {RC}",
                     NEED % ("Send", "Send") + (t % ("", m)).replace("@", "u8"),
                     NEED % ("Send", "Send") + (t % ("", m)).replace("@", RC))

SHARED = []
for c in FLAVOURS:
    w = "" if c == "crossmist" else ".await"
    a = "" if c == "crossmist" else "async "
    for what, use in (("Sender<@>", "s.send(&1)"), ("Receiver<@>", "s.recv()"), ("Duplex<@, @>", "s.send(&1)"), ("Duplex<@, @>", "s.recv()"),
                      ("Duplex<@, @>", "s.request(&1)")):
        t = a + "fn f(s: &%s" + f"{c}::{what.replace('@', 'u8')}) {{ let _ = {use}{w}; }}"
        SHARED.append((f"{c}: {use} through a shared reference to a {what.split('<')[0]}", "pub " + t % "mut ", "pub " + t % ""))


USES = {
    "an end in another thread": "pub fn f(mut s: crossmist::Sender<u8>) { std::thread::spawn(move || s.send(&1).unwrap()).join().unwrap() }",
    "an end in another thread, of values that are not": "pub fn f(mut s: crossmist::Receiver<std::rc::Rc<u8>>) -> u8 { std::thread::spawn(move || *s.recv().unwrap().unwrap()).join().unwrap() }",
    "joining in another thread": "pub fn f(c: crossmist::Child<std::rc::Rc<u8>>) -> u8 { std::thread::spawn(move || *c.join().unwrap()).join().unwrap() }",
    "killing from another thread": "pub fn f(c: crossmist::Child<u8>) { let k = c.get_kill_handle(); let t = std::thread::spawn(move || k.kill()); let _ = c.join(); let _ = t.join(); }",
    "an end behind a mutex": "pub static S: std::sync::Mutex<Option<crossmist::Sender<u8>>> = std::sync::Mutex::new(None);",
    "ends of channels in tokio tasks": "pub fn f(mut s: crossmist::tokio::Sender<u8>, mut r: crossmist::tokio::Receiver<String>) { tokio::spawn(async move { while let Some(x) = r.recv().await.unwrap() { s.send(&(x.len() as u8)).await.unwrap() } }); }",
    "requests in tokio tasks": "pub fn f(mut s: crossmist::tokio::Duplex<String, u8>) { tokio::spawn(async move { s.request(&String::new()).await.unwrap() }); }",
    "joining in tokio tasks": "pub fn f(c: crossmist::tokio::Child<String>) { tokio::spawn(async move { c.join().await.unwrap() }); }",
    "a function object called by many threads": "#[crossmist::func] pub fn g(a: u8) -> u8 { a } pub fn f() { std::thread::spawn(|| g.run(1)); std::thread::spawn(|| g.spawn(1)); }",
}


def positive():
    """(rule, title, program)"""
    for t in ends():
        for tr in ("Send", "Sync"):
            g = "<T: crossmist::Object>" if "@" in t else ""
            yield "T1-anywhere", f"{t.replace('@', 'T')} is {tr} for every T", NEED % (tr, tr) + f"pub fn f{g}() {{ need::<{t.replace('@', 'T')}>() }}"
    for tr in ("Send", "Sync"):
        yield "T1-held", f"Delayed<T> is {tr} if T is Send and Sync", NEED % (tr, tr) + "pub fn f<T: crossmist::Object + Send + Sync>() { need::<crossmist::Delayed<T>>() }"
    for m in ("tokio", "smol"):
        for k, (bound, t) in FUTURES.items():
            yield "T2-futures", f"{m}: the future of {k} is Send for every {'shareable ' if bound else ''}T", \
                NEED % ("Send", "Send") + (t % (f"<T: crossmist::Object{bound}>", m)).replace("@", "T")
    for k, t in USES.items():
        yield "T1-used", k, t


def check(A, rep, prop, tier):
    f, err = witness("reject")
    if f is None:
        raise BuildFailure(err)
    pos = list(positive())
    neg = [("T3-confined",) + x for x in CONFINED] + [("T4-exclusive",) + x for x in SHARED]
    progs = [x[2] for x in pos] + [y for x in neg for y in (x[2], x[3])]
    rs = compile_all(progs)
    held = twins = rejected = 0
    for (rule, title, text), (ok, e) in zip(pos, rs):
        held += ok
        hidden = HIDDEN.search(text)
        rep.oblige(rule, ok or (None if hidden else False), title, None,
                   f"{title}: does not hold: {short(e)}" if not ok else "", key=f"{rule}:{title}")
    for i, (rule, title, good, bad) in enumerate(neg):
        (gok, ge), (bok, be) = rs[len(pos) + 2 * i], rs[len(pos) + 2 * i + 1]
        if not gok:
            rep.oblige(rule, None, title, None, f"{title}: the correct program does not compile: {short(ge)}", key=f"{rule}:twin:{title}")
            continue
        twins += 1
        rejected += not bok
        rep.oblige(rule, not bok, title, None, f"{title}: yet it compiles: {bad.splitlines()[-1]}", key=f"{rule}:{title}")
    rep.anchor("correct programs that compile", held + twins, 60)
    rep.notes.append(f"{len(pos)} programs that must compile, {len(neg)} that must not, each with a twin that does ({twins}); {rejected} rejected")


if __name__ == "__main__":
    rep = Report("C32")
    check(None, rep, "C32", "quick")
    for x in rep.undecided + rep.violations:
        print(str(x)[:300])
    print(rep.notes)
