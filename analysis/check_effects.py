"""What the crate does to the process that uses it, and what a child starts from (C31): an effect analysis.

Every call site of every body of the crate, and of what its macros write into the witness crates, is classified by what the callee
does to state that belongs to the whole process. The exec and clone calls are followed with the values of their arguments.
"""
from common import *
from check_proc import called, ops, graph, spawn_graphs, join_roots, callbacks, execs, facts_of, positions, flagval, all_events
from terms import subterms

RULES = {"C31": {
    "U1-global": "No call changes what belongs to the whole process: environment, working directory, signal dispositions and masks, session, credentials, limits, panic hook, namespaces.",
    "U2-environment": "The new image is executed with the environment of the process itself.",
    "U3-apart": "The new process shares nothing with its parent that outlives the exec (working directory, semaphores), is its child, and lives in the same namespaces.",
    "U4-stdio": "The standard streams are neither closed nor replaced nor protected.",
    "U5-quiet": "Nothing is written to standard output, and standard input is not read.",
    "U6-lives": "No public operation ends the process that called it.",
    "U7-strangers": "Only processes started by the crate are waited for or signalled: no wait for any child, no signal to a group.",
}}
EXPLAIN = {"C31": "effects of every external call site of the crate (all configurations in the thorough tier) and of the code its macros expand to, plus value tracing of the arguments of process creation and exec"}

# name -> what it changes; by first path segments
GLOBAL = {
    "std::env": {"set_var": "the environment", "remove_var": "the environment", "set_current_dir": "the working directory"},
    "std::panic": {"set_hook": "the panic hook", "take_hook": "the panic hook", "update_hook": "the panic hook"},
    "std::panicking": {"set_hook": "the panic hook", "take_hook": "the panic hook", "update_hook": "the panic hook"},
    "std::os::unix": {"chroot": "the root directory"},
    "std::alloc": {"set_alloc_error_hook": "the allocation error hook"},
    "tokio::signal": {"*": "signal dispositions"},
    "libc": dict(
        {n: "signal dispositions or masks" for n in ("signal", "bsd_signal", "sigset", "sighold", "sigignore", "sigaction", "sigprocmask", "pthread_sigmask", "siginterrupt", "alarm", "ualarm", "setitimer", "timer_create")},
        **{n: "the working or root directory" for n in ("chdir", "fchdir", "chroot", "pivot_root")},
        **{n: "the environment" for n in ("setenv", "putenv", "unsetenv", "clearenv")},
        **{n: "the session or process group" for n in ("setsid", "setpgid", "setpgrp", "tcsetpgrp", "daemon")},
        **{n: "credentials" for n in ("setuid", "setgid", "seteuid", "setegid", "setreuid", "setregid", "setresuid", "setresgid", "setgroups", "initgroups", "capset")},
        **{n: "limits or scheduling" for n in ("setrlimit", "setrlimit64", "nice", "setpriority", "sched_setaffinity", "sched_setscheduler", "sched_setparam", "mlockall", "munlockall")},
        **{n: "namespaces or execution domain" for n in ("unshare", "setns", "personality")},
        **{n: "the file mode mask" for n in ("umask",)}, **{n: "the locale" for n in ("setlocale", "uselocale")},
        **{n: "handlers run at fork or exit" for n in ("atexit", "on_exit", "pthread_atfork")},
        **{n: "descriptors that are not the crate's" for n in ("close_range", "closefrom", "fcloseall")}),
    "rustix": dict(
        {n: "the working or root directory" for n in ("chdir", "fchdir", "chroot", "pivot_root")},
        **{n: "the session or process group" for n in ("setsid", "setpgid", "tcsetpgrp", "ioctl_tiocsctty")},
        **{n: "limits or scheduling" for n in ("setrlimit", "nice", "setpriority_process", "setpriority_pgrp", "setpriority_user", "sched_setaffinity")},
        **{n: "credentials" for n in ("set_thread_uid", "set_thread_gid", "set_thread_res_uid", "set_thread_res_gid", "set_thread_groups", "set_capabilities")},
        **{n: "namespaces" for n in ("unshare", "unshare_unsafe", "move_into_link_name_space", "move_into_thread_name_spaces")},
        **{n: "the file mode mask" for n in ("umask",)},
        **{n: "signal dispositions or what happens to the process" for n in ("set_parent_process_death_signal", "set_child_subreaper", "set_dumpable_behavior", "sigaction", "sigprocmask", "setitimer")},
        **{n: "descriptors that are not the crate's" for n in ("close_range",)}),
}
PRCTL = {1: "the signal on the parent's death", 4: "dumpability", 8: "capabilities", 22: "system call filters", 24: "capabilities", 28: "security bits", 36: "who adopts orphans", 38: "privileges"}
COMMAND = {"env", "envs", "env_clear", "env_remove", "current_dir", "uid", "gid", "groups", "process_group", "setsid", "chroot"}
STRANGERS = {"wait", "wait3", "killpg", "kill_process_group", "kill_current_process_group", "test_kill_process_group", "raise", "waitpgid"}
STDIO = {"dup2_stdin", "dup2_stdout", "dup2_stderr", "take_stdin", "take_stdout", "take_stderr"}
SYSCALL = {56: None, 80: "the working directory", 81: "the working directory", 95: "the file mode mask", 109: "the process group", 112: "the session", 13: "signal dispositions", 14: "the signal mask",
           105: "credentials", 106: "credentials", 113: "credentials", 114: "credentials", 117: "credentials", 119: "credentials", 160: "limits", 161: "the root directory", 272: "namespaces", 308: "namespaces", 436: "descriptors"}

CLONE = {0x200: "the working directory and the file mode mask (CLONE_FS): when the child changes them, its parent's change too", 0x40000: "semaphore undo lists (CLONE_SYSVSEM)",
         0x8000: "its parent (CLONE_PARENT): it is no child of the process that started it and cannot be waited for", 0x20000: None, 0x80: None, 0x2000000: None, 0x4000000: None, 0x8000000: None,
         0x10000000: None, 0x20000000: None, 0x40000000: None}


def effect(key):
    """What calling the function changes, or None."""
    seg = key.split("::")
    last = seg[-1]
    for root, names in GLOBAL.items():
        if key == root or key.startswith(root + "::"):
            if last in names or "*" in names:
                return names.get(last) or names["*"]
    return None


def const_of(o):
    """An integer constant operand."""
    return int(o[2]["int"]) if o[0] == "k" and "int" in o[2] else None


def sites(A, rep, mine):
    n = 0
    for k, b in sorted(A.db.bodies.items()):
        if not mine(k, b):
            continue
        names = [blk["t"][1][1].split("::")[-1] for blk in b.blocks if blk["t"][0] == "call" and blk["t"][1][0] == "fn"]
        for blk in b.blocks:
            t = blk["t"]
            if t[0] != "call" or t[1][0] != "fn":
                continue
            key = t[1][1]
            d = A.db.defs.get(key) or {}
            root = key.split("::")[0]
            if d.get("local") or root in ("core", "alloc", "crossmist", "models"):
                continue
            n += 1
            last = key.split("::")[-1]
            short = A.db.short(key)
            ev = site(b, t, key)
            what = effect(key)
            if what:
                # a signal mask that is changed around something and put back is the calling thread's own business
                restored = last in ("sigprocmask", "pthread_sigmask") and names.count(last) > 1
                rep.oblige("U1-global", None if restored else False, f"{k}:{last}", ev, f"{short} changes {what} of the whole process, the user's part included", key=f"U1-global:{last}")
            elif root == "libc" and last in ("prctl", "syscall"):
                c = const_of(t[2][0])
                table = PRCTL if last == "prctl" else SYSCALL
                if c is None or table.get(c):
                    rep.oblige("U1-global", False if c is not None else None, f"{k}:{last}", ev, f"{short}({c}) changes {table.get(c) if c is not None else 'something not determined'} of the whole process", key=f"U1-global:{last}")
            elif root == "std" and "::process::" in key and last in COMMAND or key.startswith("std::os::unix::process::CommandExt::") and last in COMMAND:
                rep.oblige("U2-environment", False, f"{k}:{last}", ev, f"{short}: the child is started in other surroundings than its parent's")
            if root in ("libc", "rustix") and last in STRANGERS:
                rep.oblige("U7-strangers", False, f"{k}:{last}", ev, f"{short} concerns processes that the crate did not start", key=f"U7-strangers:{last}")
            if root == "rustix" and last in STDIO:
                rep.oblige("U4-stdio", False, f"{k}:{last}", ev, f"{short} replaces or takes a standard stream", key=f"U4-stdio:{last}")
            if key.startswith("std::io::stdio::") and last in ("_print", "stdout", "stdin", "set_output_capture"):
                rep.oblige("U5-quiet", False, f"{k}:{last}", ev, f"{short}: the crate uses the standard {'input' if last == 'stdin' else 'output'} of the program", key=f"U5-quiet:{last}")
            fd = None
            if last in ("close", "from_raw_fd", "from_raw_handle", "borrow_raw") and t[2]:
                fd = const_of(t[2][0])
            elif last in ("dup2", "dup3") and len(t[2]) > 1:
                fd = const_of(t[2][1])
            if fd in (0, 1, 2) and last != "borrow_raw":
                rep.oblige("U4-stdio", False, f"{k}:{last}", ev, f"{short} closes or replaces descriptor {fd}, a standard stream", key=f"U4-stdio:{last}:{fd}")
    return n


class site:
    """Place of a call, for the report."""

    def __init__(self, b, t, key):
        self.kind, self.name, self.key, self.line, self.file = "call", key, key, t[7] if isinstance(t[7], int) else b.line, b.file
        self.args = self.deep = self.res = self.facts = None
        self.ctx = self.bb = None
        self.where = b.key


def fdnum(t):
    """The number of a descriptor given as a constant."""
    for x in [t] + (list(t.a[2]) if t.op == "agg" else []) + (list(t.a[1]) if t.op == "app" and t.a[0] == "owned" else []):
        if x.op == "int":
            return x.a[0]
    return None


def check(A, rep, prop, tier):
    if prop != "C31":
        return
    n = sites(A, rep, lambda k, b: b.crate == "crossmist")
    rep.anchor("external call sites of the crate", n, 40 if A.config == "full" else 25)
    for r in ("U1-global", "U5-quiet", "U7-strangers"):
        rep.oblige(r, True, f"{n} call sites")
    m = 0
    if A.config == "full":
        for name in ("entry", "func"):
            f, err = witness(name)
            if f is None:
                rep.undecided.append(f"code written by the macros: the witness {name} does not compile: {str(err)[-200:]}")
                continue
            B = Analysis([f])
            m += sites(B, rep, lambda k, b: b.crate == "witness_" + name)
        rep.oblige("U1-global", True, f"{m} call sites in code written by the macros")
    # process creation and exec
    for k, (g, cl) in callbacks(A, rep).items():
        label = k.split("::")[-1]
        for l, sg, c in cl:
            if called(c.ev, "clone"):
                v = flagval(c.ev.deep[2])
                if v is None:
                    rep.oblige("U3-apart", None, l, c.ev, "clone flags not determined")
                    continue
                bad = [b for b in CLONE if v & b]
                rep.oblige("U3-apart", not bad, l, c.ev, "; ".join("the child " + ("shares " + CLONE[b] if CLONE[b] and "CLONE_PARENT" not in CLONE[b] else "takes over " + CLONE[b] if CLONE[b] else f"is put into another namespace ({b:#x})") for b in bad))
        X = execs(g)
        rep.anchor("exec in " + label, X)
        for x in X:
            nm = str(x.ev.name).split("::")[-1]
            i = {"execve": 2, "execvpe": 2, "execveat": 3, "fexecve": 2}.get(nm)
            if i is None:
                rep.oblige("U2-environment", True, label, x.ev)
                continue
            e = x.ev.deep[i] if len(x.ev.deep) > i else None
            s = show(e) if e is not None else ""
            own = "environ" in s
            empty = e is not None and (e.op == "int" or "null" in s or e.op in ("ref", "addr_of", "&") and not any(y.op in ("call", "sym", "phi", "hav") for y in subterms(e)))
            rep.oblige("U2-environment", True if own else False if empty else None, label, x.ev, f"the new image is not given the environment of the process: {s[:120]}")
        stdio(rep, g, label)
    # the calling process goes on
    seen = 0
    for label, k, g, C in spawn_graphs(A, rep):
        lives(rep, g, label)
        stdio(rep, g, label)
        seen += 1
    for label, k, env in join_roots(A, rep):
        g = graph(A, rep, k, env, label)
        if g is not None:
            lives(rep, g, label)
            seen += 1
    import check_wire
    for r in check_wire.graphs(A, rep):
        lives(rep, r.g, r.label)
        seen += 1
    rep.anchor("public operations followed", seen, 6)


def lives(rep, g, label):
    bad = [e for e in all_events(g) if e.kind in ("call", "diverge", "panic", "io") and str(e.key or e.name).split("::")[-1] in ("exit", "abort", "_exit", "quick_exit", "exit_group", "abort_internal")
           and (str(e.key or e.name).split("::")[0] in ("std", "libc", "rustix", "core") or e.key is None)]
    rep.oblige("U6-lives", not bad, label, bad[0] if bad else None, "the operation may end the whole process that called it")


def stdio(rep, g, label):
    for e in all_events(g):
        last = str(e.name).split("::")[-1]
        if e.kind == "call" and e.deep:
            i = {"close": 0, "fcntl_setfd": 0, "fcntl": 0, "dup2": 1, "dup3": 1}.get(last)
            if i is not None and len(e.deep) > i:
                fd = fdnum(e.deep[i])
                if fd in (0, 1, 2):
                    rep.oblige("U4-stdio", False, label, e, f"{last} is applied to descriptor {fd}, a standard stream")
    rep.oblige("U4-stdio", True, label)
