"""K06: notification of committed changes."""
from rules.lib import *  # noqa

KF = "devpi_server.keyfs"
TN = KF + ".TxNotificationThread"
SHUT = "devpi_server.mythread.Shutdown"


def is_path(t, *names):
    return t is not None and any(attr_chain(x).endswith(names) for x in subterms(t) if x.k == "attr")


def filekey(t):
    """keyname in (STAGEFILE, PYPIFILE_NOMD5): the names it covers"""
    if t.k == "cmp" and t.a[0] == "in":
        return {cstr(x) for x in items(t.a[2])}
    if t.k == "cmp" and t.a[0] == "==":
        return {cstr(x) for x in t.a[1:]} - {None}
    return set()


def tick(ctx):
    R = ctx.rule("K06.progress", "each pass of the notification loop runs the subscribers of the serial directly after the last "
                 "handled one to completion before that same serial, and no other, is recorded as handled; shutdown is checked each time")
    C = ctx.P.cls(TN)
    f = C.method("tick")
    rec = []

    def hooks(ev, st):
        if ev.name == "_execute_hooks":
            rec.append(("hook", ev.args[0]))
            return "hooks"

    def write(ev, st):
        if ev.name == "write_event_serial":
            rec.append(("write", ev.args[0]))
            return "write"

    def br(t, v, st):
        if t.k == "cmp" and t.a[0] in ("<", "<=") and (has_call(t, "get_current_serial")):
            low = t.a[2] if has_call(t.a[1], "get_current_serial") else t.a[1]
            less = t.a[1] is low
            if t.a[0] == "<":
                # low < current
                return ("behind" if v else "insync") if less else ("ahead" if v else "notahead")
            return ("notahead" if v else "ahead") if less else ("insync" if v else "behind")
    paths = trace_paths(ctx, f, {"hooks": hooks, "write": write, "stop": "exit_if_shutdown", "wait": "wait_tx_serial", "read": "read_event_serial"},
                        branch=br, dedupe=False, raises={"read": (), "wait": ("?",), "hooks": ("?", SHUT), "write": ("?",), "stop": (SHUT,)},
                        self_cls=C, quiet=("get_current_serial", "time"), stop=("get_current_serial",), max_states=200)
    ctx.ob(R, f, some(paths, "hooks") and some(paths, "write") and some(paths, "wait"), "the loop does not run subscribers, record progress and wait", key="instances")
    ok = lambda p: all(not (x == "write" or x == "write!") or "hooks" in p.trace[:i] and p.trace[:i][::-1].index("hooks") < (
        p.trace[:i][::-1].index("write") if "write" in p.trace[:i] else 99) for i, x in enumerate(p.trace))
    check_paths(ctx, R, f, paths, ok, "a serial is recorded as handled without its subscribers having completed", key="order")
    check_paths(ctx, R, f, paths, lambda p: not p.has("hooks!") or not p.has("write") or p.last("write") < p.idx("hooks!"),
                "a serial is recorded as handled although its notification failed", key="failed")
    check_paths(ctx, R, f, paths, lambda p: not p.has("hooks!", "stop!") or p.kind == "raise", "an interrupted notification goes on with the next serial", key="interrupted")

    def stops(p):
        pend = False
        for x in p.trace:
            if x == "stop":
                pend = True
            elif x.startswith("hooks"):
                if not pend:
                    return False
                pend = False
        return True
    check_paths(ctx, R, f, paths, stops, "the loop does not look for a shutdown request between two serials", key="shutdown")
    check_paths(ctx, R, f, paths, lambda p: all(x not in ("hooks", "hooks!") or p.trace[max(0, i - 2):i].count("behind") for i, x in enumerate(p.trace)),
                "a serial is notified although it is not committed yet", key="committed")

    def all_written(p):
        pend = False
        for x in p.trace:
            if x == "hooks":
                if pend:
                    return False
                pend = True
            elif x == "write":
                pend = False
        return not pend or p.kind == "raise" or len(p.trace) >= 23
    check_paths(ctx, R, f, paths, all_written, "a handled serial is not recorded", key="written")
    # terms: hooks(x) then write(x); x = previous + 1
    start = [t for k, t in rec if k == "hook"]
    good = bool(start)
    for k, t in rec:
        cur, n = t, 0
        while cur.k == "bin" and cur.a[0] in ("+", "Add") and const(1) in cur.a[1:] and n < 99:
            cur = cur.a[1] if cur.a[2] is const(1) else cur.a[2]
            n += 1
        if not (n and (cur.k == "call" and call_name(cur) == "read_event_serial" or cur.k == "phi" or cur.k not in ("c",) and has_call(cur, "read_event_serial"))):
            good = False
    wr = {t for k, t in rec if k == "write"}
    ctx.ob(R, f, good and wr <= set(start), "the serial notified or recorded is not the one after the last handled serial", key="chain")
    check_paths(ctx, R, f, paths, lambda p: p.kind == "raise" or p.has("wait") or p.trace[-1:] == ("behind",), "the loop does not wait for the next commit", key="wait")
    # nothing waits while behind
    check_paths(ctx, R, f, paths, lambda p: not p.has("wait", "wait!") or p.trace[:p.idx("wait") if p.has("wait") else p.idx("wait!")][::-1][:1] != ("behind",),
                "the loop waits although serials are outstanding", key="wait-late")
    waits = [e for g, c in callers(ctx.P, "wait_tx_serial", prefixes=SERVER) if g is f for e in [c]]
    for c in waits:
        cb = kwarg(c, "recheck_callback")
        ctx.ob(R, f, kwarg(c, "timeout") is not None or cb is not None and "exit_if_shutdown" in src(cb), "waiting for the next commit does not end on shutdown", key="wait-shutdown",
               where=where(f, c))


def progress_file(ctx):
    R = ctx.rule("K06.file", "the recorded progress is read back as the serial which was recorded, and as 'nothing handled' when there is none")
    C = ctx.P.cls(TN)
    r, w = C.method("read_event_serial"), C.method("write_event_serial")
    args = []

    def wl(ev, st):
        if ev.name == "write_int_to_file":
            args.append(list(ev.args))
            return True
    paths = trace_paths(ctx, w, {"w": wl}, self_cls=C)
    par = T("p", w.params()[1])

    def offset(t, base):
        if t is base:
            return 0
        if t.k == "bin" and t.a[0] in ("+", "Add", "-", "Sub"):
            x, y = t.a[1], t.a[2]
            sign = 1 if t.a[0] in ("+", "Add") else -1
            if y.k == "c" and isinstance(cval(y), int):
                o = offset(x, base)
                return None if o is None else o + sign * cval(y)
            if x.k == "c" and isinstance(cval(x), int) and sign == 1:
                o = offset(y, base)
                return None if o is None else o + cval(x)
        return None
    wo = {offset(a[0], par) for a in args}
    check_paths(ctx, R, w, paths, lambda p: p.kind == "raise" or p.has("w"), "progress is not written", key="written")
    reads = []

    def rl(ev, st):
        if ev.name == "read_int_from_file":
            reads.append(ev)
            return True
    paths2 = trace_paths(ctx, r, {"r": rl}, self_cls=C)
    ro = {offset(p.ret, next((x for x in subterms(p.ret) if x.k == "call" and call_name(x) == "read_int_from_file"), None)) for p in paths2 if p.kind == "return"}
    ctx.ob(R, r, len(wo) == 1 and len(ro) == 1 and None not in wo and None not in ro and next(iter(wo)) + next(iter(ro)) == 0,
           "progress read back differs from the serial recorded", key="inverse")
    ctx.ob(R, r, bool(reads) and bool(args) and all(e.args[0] is a[1] for e in reads for a in args), "progress is read from another file than it is written to", key="same-file")
    # default: without a file, nothing was handled: the first serial to notify is 0
    g = ctx.P.func("devpi_server.fileutil.read_int_from_file")
    dflt = None
    for e in reads:
        d = argn(e, 1, "default")
        if d is None:
            dn = g.node.args.defaults
            d = const(literal(dn[-1])) if dn else None
        dflt = d
    ctx.ob(R, r, dflt is not None and dflt.k == "c" and ro and None not in ro and cval(dflt) + next(iter(ro)) == -1, "without recorded progress the first serials are skipped", key="default")
    gp = trace_paths(ctx, g, {"read": ["read", "read_text", "read_bytes"]}, raises={"read": ("builtins.PermissionError",)})
    D = T("p", g.params()[1])
    check_paths(ctx, R, g, gp, lambda p: p.kind == "raise" or p.ret is D or has_call(p.ret, "int") and (has_call(p.ret, "read", "read_text", "read_bytes")),
                "reading a number from a file invents one", key="read_int")


def loop(ctx):
    R = ctx.rule("K06.loop", "an exception in a pass is logged and the loop goes on; only a shutdown request ends it")
    C = ctx.P.cls(TN)
    f = C.method("thread_run")
    paths = trace_paths(ctx, f, {"tick": "tick", "sleep": "sleep"}, self_cls=C, dedupe=False,
                        raises={"tick": ("?", KF + ".MissingFileException", SHUT), "sleep": (SHUT,)}, default_raises=())
    ctx.ob(R, f, some(paths, "tick!") and any(p.trace.count("tick!") + p.trace.count("tick") > 1 for p in paths) and all(p.kind == "raise" for p in paths),
           "the notification thread ends without a shutdown request", key="endless")
    check_paths(ctx, R, f, paths, lambda p: p.exc is None or p.exc.a[0] == SHUT, "the notification thread dies from an exception", key="survive")
    seen = {i for p in paths for i, x in enumerate(p.trace) if x == "tick!"}
    ctx.ob(R, f, any(p.trace and p.trace[-1] == "tick!" and p.exc is not None and p.exc.a[0] == SHUT for p in paths), "a shutdown request during a pass is swallowed", key="shutdown")
    # the thread is only registered on nodes which do not just serve requests
    n = 0
    for g in ctx.P.iter_funcs("devpi_server"):
        for c in own_calls(g, "register", "register_in_threads", "add_thread"):
            if any("notifier" in src(a) for a in c.args):
                n += 1
    ctx.ob(R, f, n >= 1, "the notification thread is never started", key="registered")


def hooks(ctx):
    R = ctx.rule("K06.hooks", "every subscriber of every changed key of the serial is called with key, value, serial and previous serial; "
                 "a failing one does not keep others from being called; a shutdown request gets out")
    C = ctx.P.cls(TN)
    f = C.method("_execute_hooks")
    V = ctx.P.cls(KF + ".KeyChangeEvent")
    par = f.params()
    S = T("p", par[1])
    evs = []
    calls = []

    def call(ev, st):
        if ev.fterm.k == "elem" and any(has_attr(x, "_on_key_change") for x in [ev.fterm.a[0]]):
            calls.append(ev)
            return "sub"

    def mk(ev, st):
        if any(t is V for t in ev.targets):
            evs.append(ev)
            return "event"

    def over_changes(it):
        return has_call(it, "get_changes")

    def iters(what, it, st):
        if has_attr(it, "_on_key_change"):
            return "subscriber" if what == "next" else "subs-end"
        if over_changes(it):
            return "change" if what == "next" else "changes-end"

    def br(t, v, st):
        if has_attr(t, "_on_key_change"):
            return "nosubs" if not v and t.k != "un" else None
        if filekey(t) & {"STAGEFILE", "PYPIFILE_NOMD5"}:
            return PRUNE if v else None
    common = dict(branch=br, iters=iters, dedupe=False, events=("_on_key_change", "KeyChangeEvent"), self_cls=C, max_states=400,
                  facts={T("p", "raising"): False} if "raising" in par else {}, default_raises=(),
                  quiet=("get_changes", "get_connection", "get_key_instance"))
    # file checks are a separate rule: skip them by making them not apply
    paths = trace_paths(ctx, f, {"event": mk, "sub": call, "missing": "MissingFileException"}, raises={"sub": ("builtins.ValueError",), "event": ()}, **common)
    ctx.ob(R, f, some(paths, "sub") and some(paths, "sub!"), "subscribers are not called", key="instances")
    sub_iter = [p for p in paths if p.has("subscriber")]
    check_paths(ctx, R, f, paths, handled("subscriber", ("sub",), "subs-end"), "a subscriber is left out", key="all")
    check_paths(ctx, R, f, paths, lambda p: not p.has("sub!") or p.kind == "return", "a failing subscriber ends the notification of the serial", key="isolated")

    def everykey(p):
        tr = p.trace
        # loops over the changes: the last one handles subscribers
        if "subscriber" not in tr and "nosubs" not in tr and "subs-end" not in tr:
            return True
        first = min(i for i, x in enumerate(tr) if x in ("subscriber", "nosubs", "subs-end"))
        start = max((i for i, x in enumerate(tr[:first]) if x == "change"), default=0)
        pend = False
        for x in tr[start:]:
            if x == "change":
                if pend:
                    return False
                pend = True
            elif x in ("subs-end", "nosubs"):
                pend = False
            elif x == "changes-end" and pend:
                return False
        return p.kind == "raise" or len(tr) >= 23 or p.last("changes-end") > p.last("change")
    check_paths(ctx, R, f, paths, everykey, "the subscribers of a changed key are not called", key="keys")
    pths = trace_paths(ctx, f, {"event": mk, "sub": call, "missing": "MissingFileException"}, raises={"sub": (SHUT,), "event": ()}, **common)
    ctx.ob(R, f, some(pths, "sub!"), "subscribers are not called", key="shutdown-instances")
    check_paths(ctx, R, f, pths, lambda p: not p.has("sub!") or p.kind == "raise" and p.exc.a[0] == SHUT, "a shutdown request inside a subscriber is swallowed and the serial counts as handled", key="shutdown")
    # arguments
    ctx.ob(R, f, bool(calls) and all(len(e.args) == 1 and e.args[0].k == "call" and any(refname(e.args[0].a[0]) == V.qual for _ in [0]) for e in calls),
           "subscribers do not get the event of the change", key="event-arg")
    init = V.find("__init__")
    attrs = [a.arg for a in init.node.args.args[1:]] if init is not None else [
        st.target.id for st in V.node.body if isinstance(st, ast.AnnAssign)]

    def part(t):
        """which part of the change entry is it"""
        if t is S:
            return "serial"
        if t.k == "call" and call_name(t) == "get_key_instance":
            return "key"
        if t.k == "sub" and t.a[1].k == "c":
            i = cval(t.a[1])
            b = t.a[0]
            if b.k == "sub" and b.a[1] is const(1) and b.a[0].k == "elem":
                return {0: "keyname", 1: "back_serial", 2: "value"}.get(i)
            if b.k == "sub" and b.k == "sub":
                return {0: "keyname", 1: "back_serial", 2: "value"}.get(i)
        return None
    want = {"typedkey": "key", "value": "value", "at_serial": "serial", "back_serial": "back_serial"}
    good = bool(evs)
    for e in evs:
        got = dict(zip(attrs, e.args))
        got.update(e.kwargs)
        for k, wnt in want.items():
            if k not in got or part(got[k]) != wnt:
                good = False
    ctx.ob(R, f, good, "key, value or serials of the event are mixed up", key="event-parts")
    if init is not None:
        stored = {}

        def st_(e, st):
            if e.kind == "attr" and e.base.k in ("inst", "p"):
                stored[e.name] = e.value
        trace_paths(ctx, init, {}, stores={"s": st_}, self_cls=V)
        ctx.ob(R, init, all(stored.get(k) is T("p", k) for k in want), "the event does not carry what it was created with", key="event-init")
    # registration
    g = C.method("on_key_change")
    regs = trace_paths(ctx, g, {"add": lambda ev, st: ev.name in ("append", "add") and has_attr(ev.fterm, "_on_key_change"),
                                "set": lambda ev, st: ev.name == "setdefault" and has_attr(ev.fterm, "_on_key_change")},
                       branch=lambda t, v, st: "started" if has_call(t, "is_alive") and v else None, self_cls=C, through=("set",))
    check_paths(ctx, R, g, regs, lambda p: p.kind == "raise" or p.has("add"), "a subscriber is not registered", key="register")
    check_paths(ctx, R, g, regs, lambda p: not (p.has("started") and p.has("add")), "a subscriber can be registered after notification started and misses serials", key="register-late")


def files(ctx):
    R = ctx.rule("K06.files", "no subscriber of a serial runs while a file which the serial and the current state still need is missing")
    C = ctx.P.cls(TN)
    f = C.method("_execute_hooks")
    par = f.params()

    names = set()

    def br(t, v, st):
        fk = filekey(t)
        if fk & {"STAGEFILE", "PYPIFILE_NOMD5"}:
            names.update(fk)
            return "file" if v else "nofile"
        if has_call(t, "io_file_exists"):
            return "exists" if v else "lost"
        if t.k == "cmp" and has_attr(t, "meta") and t.a[0] == "==":
            return "removed" if v else None
        if t.k == "attr" and t.a[1] == "meta":
            return None if v else "removed"
        if t.k == "cmp" and has_attr(t, "last_modified") and NONE in t.a[1:]:
            return "removed" if v else None
        if t.k == "cmp" and t.a[0] == "is" and NONE in t.a[1:]:
            o = t.a[1] if t.a[2] is NONE else t.a[2]
            if o.k == "call" and call_name(o) == "get_ixconfig" or o.k == "phi":
                return "noindex" if v else None
            if o.k == "call" and call_name(o) in ("get",):
                return "gone" if v else None
            if o.k == "attr" and o.a[1] == "project":
                return "noproject" if v else None
        if has_str(t, "mirror_use_external_urls"):
            return "external" if v else None
        if t.k == "cmp" and has_str(t, "mirror"):
            return "mirror" if v else "notmirror"
        if t.k == "cmp" and t.a[0] in ("<", "<=") and has_call(t, "get_current_serial"):
            return "older" if v else "newest"

    def iters(what, it, st):
        if has_call(it, "get_changes") and not has_attr(it, "_on_key_change"):
            if what == "next" and ("sub" in st.auto or st.auto.count("change") >= 3):
                return PRUNE
            return "change" if what == "next" else "changes-end"
        if has_attr(it, "_on_key_change") and "sub" in st.auto:
            return None if what == "end" else PRUNE

    def sub(ev, st):
        return ev.fterm.k == "elem" and has_attr(ev.fterm.a[0], "_on_key_change")
    paths = trace_paths(ctx, f, {"sub": sub}, branch=br, iters=iters, dedupe=False, self_cls=C, max_states=600,
                        events=("_on_key_change", "io_file_exists", "MissingFileException"),
                        follow=lambda g, ev, d: False if g.name in ("get_ixconfig", "get", "read_transaction") else None, default_raises=(), raises={"sub": ()})
    ctx.ob(R, f, {"STAGEFILE", "PYPIFILE_NOMD5"} <= names, "not every kind of file is checked", key="kinds")
    ctx.ob(R, f, any(p.kind == "raise" and "MissingFile" in p.exc.a[0] for p in paths if p.exc is not None), "a missing file does not stop the notification", key="instances")

    excuses = {"exists", "removed", "noindex", "gone"}

    def ok(p):
        if p.kind == "raise":
            return True
        # each file of the first loop has to be excused before the loop goes on
        cur = None
        for x in p.trace:
            if x in ("change", "changes-end", "sub"):
                if cur is not None and not excused(cur):
                    return False
                cur = None
            elif x == "file":
                cur = []
            elif cur is not None:
                cur.append(x)
        return True

    def excused(c):
        if excuses & set(c):
            return True
        for i, x in enumerate(c):
            kinds = [y for y in c[:i] if y in ("mirror", "notmirror")]
            if x in ("external", "noproject") and kinds[-1:] == ["mirror"]:
                return True
        return False
    check_paths(ctx, R, f, paths, ok, "a file which is missing is passed over without a reason", key="excuse")
    check_paths(ctx, R, f, paths, lambda p: not (p.has("gone") and not p.has("older")), "the newest serial is treated as superseded", key="older")

    def sub_after(p):
        if not p.has("sub"):
            return True
        return not any(x in ("file",) for x in p.trace[p.idx("sub"):]) and "changes-end" in p.trace[:p.idx("sub")]
    check_paths(ctx, R, f, paths, sub_after, "a subscriber runs before the files of the whole serial were checked", key="first")
    # the exists test is for the file of that entry
    n = 0
    for g in [f] + [x for x in ctx.P.iter_funcs("devpi_server") if x.cls is C and x is not f]:
        for c in own_calls(g, "io_file_exists"):
            n += 1
            ctx.ob(R, g, len(c.args) >= 1 and ("_storepath" in src(c.args[0]) or isinstance(c.args[0], ast.Name)), "the file looked for is not the entry's own", key="path", where=where(g, c))
    ctx.ob(R, f, n >= 1, "files are not looked for", key="exists")


def writers(ctx):
    R = ctx.rule("K06.wake", "each storage writer announces the serial it committed, after the commit, and waiting threads are woken")
    n = 0
    for c, m in impls(ctx.P, "__exit__"):
        if c.find("record_set") is None:
            continue
        n += 1
        paths = trace_paths(
            ctx, m, {"commit": lambda ev, st: ev.name in ("commit", "_write_dirty_files", "write_changelog_entry") and ev.name != "write_changelog_entry",
                     "notify": lambda ev, st: "notify" in (ev.name or "")}, self_cls=c,
            events=("commit", "notify_on_commit", "_notify_on_commit"), raises={"commit": ("?",), "notify": ()},
            branch=lambda t, v, st: "ok" if t.k == "cmp" and t.a[0] == "is" and NONE in t.a[1:] and v and contains(t, lambda x: x.k == "p") else None,
            default_raises=())
        ctx.ob(R, m, some(paths, "notify"), "commits are not announced", key="instances")
        check_paths(ctx, R, m, paths, lambda p: not (p.kind == "return" and p.has("commit") and not p.has("commit!")) or p.has("notify"), "a commit is not announced", key="notify")
        check_paths(ctx, R, m, paths, lambda p: not p.has("notify") or p.has("commit") and p.idx("commit") < p.idx("notify"), "a change is announced before it is committed", key="notify-order")
    ctx.count(R, n, 2, "storage writers")
    K = ctx.P.cls(KF + ".KeyFS")
    f = K.method("_notify_on_commit")
    paths = trace_paths(ctx, f, {"wake": "notify_all"}, self_cls=K, default_raises=())
    check_paths(ctx, R, f, paths, lambda p: p.has("wake"), "waiting threads are not woken by a commit", key="wake")
    init = K.method("__init__")
    good = False
    for x in walk_own(init.node):
        if isinstance(x, ast.Call):
            k = kwarg(x, "notify_on_commit")
            if k is not None and "_notify_on_commit" in src(k):
                good = True
            elif any("_notify_on_commit" in src(a) for a in x.args):
                good = True
    ctx.ob(R, init, good, "the storage is not told whom to announce commits to", key="wired")


def check(ctx):
    tick(ctx)
    progress_file(ctx)
    loop(ctx)
    hooks(ctx)
    files(ctx)
    writers(ctx)
    ctx.assumptions.append("subscribers themselves are not analysed; 'handled' means that each was called and returned or failed")


SELFTEST = [
    ("server/devpi_server/keyfs.py", "            self._execute_hooks(event_serial, self.log)\n            with self.cv_new_event_serial:\n                self.write_event_serial(event_serial)\n",
     "            with self.cv_new_event_serial:\n                self.write_event_serial(event_serial)\n            self._execute_hooks(event_serial, self.log)\n            with self.cv_new_event_serial:\n"),
    ("server/devpi_server/keyfs.py", "write_int_to_file(event_serial + 1, self", "write_int_to_file(event_serial, self"),
    ("server/devpi_server/keyfs.py", "            self.thread.exit_if_shutdown()\n            event_serial += 1", "            event_serial += 1"),
    ("server/devpi_server/keyfs.py", "                    except mythread.Shutdown:\n                        raise\n                    except Exception:\n                        if raising", "                    except Exception:\n                        if raising"),
    ("server/devpi_server/keyfs.py", "                        if raising:\n                            raise\n                        log.exception", "                        if not raising:\n                            raise\n                        log.exception"),
    ("server/devpi_server/keyfs.py", "KeyChangeEvent(key, val, event_serial, back_serial)", "KeyChangeEvent(key, val, back_serial, event_serial)"),
    ("server/devpi_server/keyfs.py", "if keyname in ('STAGEFILE', 'PYPIFILE_NOMD5'):", "if keyname in ('STAGEFILE',):"),
    ("server/devpi_server/keyfs.py", "                    if event_serial < serial:\n", "                    if event_serial <= serial:\n"),
    ("server/devpi_server/keyfs.py", "                        if current_ixconfig.get('type') == 'mirror':", "                        if current_ixconfig.get('type') != 'mirror':"),
    ("server/devpi_server/keyfs.py", "                if not subscribers:\n                    continue", "                if not subscribers:\n                    break"),
    ("server/devpi_server/keyfs.py", "            except mythread.Shutdown:\n                raise\n            except MissingFileException", "            except MissingFileException"),
    ("server/devpi_server/keyfs.py", "            event_serial += 1\n", "            event_serial = self.keyfs.get_current_serial()\n"),
]
