"""R03: background threads survive failures and stop on shutdown."""
from rules.lib import *  # noqa

SHUT = "devpi_server.mythread.Shutdown"
MT = "devpi_server.mythread"
LOG = ("debug", "info", "warn", "warning", "error", "exception", "thread_push_log", "time", "thread_pop_log", "qsize", "count")
WAITERS = ("wait", "join", "get", "sleep", "acquire")


def thread_classes(P):
    """classes whose instances are registered with the thread pool"""
    return [c for c in sorted(P.classes.values(), key=lambda c: c.qual)
            if "thread_run" in c.methods and c.module.name.split(".")[0] in ALL_SERVER and not is_iface(c)]


def has_loop(f):
    return any(isinstance(x, ast.While) for x in walk_own(f.node))


def has_method(c, name):
    return c.find(name) is not None


def qn(x):
    """the name of the queue a call is made on"""
    return src(x.func.value).rpartition(".")[2] if isinstance(x.func, ast.Attribute) else ""


def loops(ctx):
    R = ctx.rule("R03.loop", "an error of any kind while a background thread works on something is handled within its loop, "
                 "which goes on; a request to shut down is the only exception which leaves it, and is never handled otherwise")
    n = 0
    for c in thread_classes(ctx.P):
        f = c.methods["thread_run"]
        if not has_method(c, "tick"):
            continue
        n += 1

        def lab(ev, st):
            if ev.name in ("sleep", "exit_if_shutdown"):
                return "pause"
            if ev.name in LOG:
                return None
            if ev.name != "tick" and any(isinstance(t, Func) and t.cls is not None and t.cls in c.mro() for t in ev.targets):
                return None
            return "tick" if ev.name == "tick" else "work"
        paths = trace_paths(ctx, f, {"x": lab}, self_cls=c, dedupe=False, stop=("tick",), raises={"tick": ("?", SHUT), "work": ("?", SHUT), "pause": (SHUT,)},
                            quiet=LOG, max_states=800)
        ctx.ob(R, f, some(paths, "tick"), "the thread does not work in its loop", key="works")
        # a handler ends a failed pass
        for p in paths:
            if p.kind == "return":
                ctx.ob(R, f, False, "the loop of the thread ends without being asked to", path=p, key="returns")
            elif p.kind == "raise":
                ctx.ob(R, f, p.exc.a[0] == SHUT, "an error ends the thread", path=p, key="survives")
        # after a shutdown request nothing more is done
        again = lambda p: not any(x in ("tick!", "work!") and "tick" in [y.rstrip("!") for y in p.trace[i + 1:]] and
                                  "pause" not in p.trace[i + 1:i + 1 + [y.rstrip("!") for y in p.trace[i + 1:]].index("tick")]
                                  for i, x in enumerate(p.trace))
        check_paths(ctx, R, f, paths, again, "the loop repeats a failing pass without a pause in which a shutdown request is noticed", key="pause")
        # Shutdown never handled: with only shutdown raised, the exit is immediate
        paths = trace_paths(ctx, f, {"x": lab}, self_cls=c, dedupe=False, stop=("tick",), raises={"tick": (SHUT,), "work": (SHUT,), "pause": (SHUT,)},
                            quiet=LOG, max_states=800)
        check_paths(ctx, R, f, paths, lambda p: not any(x.endswith("!") for x in p.trace) or (p.kind == "raise" and p.exc.a[0] == SHUT and p.trace[-1].endswith("!")),
                    "a shutdown request does not end the thread", key="shutdown")
    ctx.count(R, n, 4, "loops of background threads")


def ticks(ctx):
    R = ctx.rule("R03.stop", "every pass of a background thread looks for a shutdown request before it works, at each step of a longer pass, and "
                 "waits only in ways which end on a time limit or on shutdown")
    n = 0
    for c in thread_classes(ctx.P):
        if not has_method(c, "tick"):
            continue
        f = c.method("tick")
        n += 1
        # every pass checks
        def br(t, v, st):
            if t.k == "cmp" and t.a[0] in ("<", "<=") and has_call(t, "get_current_serial"):
                low = has_call(t.a[2], "get_current_serial")
                return "behind" if (t.a[0] == "<" and low and v) or (t.a[0] == "<=" and not low and not v) else "notbehind"
        paths = trace_paths(ctx, f, {"stop": "exit_if_shutdown", "wait": lambda ev, st: ev.name == "wait_tx_serial" and
                                     any("exit_if_shutdown" in show(a) for a in ev_args(ev))},
                            self_cls=c, default_raises=(), events=("wait_tx_serial",), quiet=("get_current_serial",), stop=("get_current_serial", "get_next_serial", "_execute_hooks", "fetch_multi", "fetch_single", "process_next",
                                  "write_event_serial", "read_event_serial"), max_states=300, branch=br)
        # a commit in between: the next pass starts with the check
        check_paths(ctx, R, f, paths, lambda p: p.has("stop", "wait", "stop!", "wait!") or p.trace[-1:] == ("behind",), "a pass of the thread does not look for a shutdown request", key="check")
        ctx.count(R, len(paths), 1, "paths through tick of %s" % c.name)
    # waits of the classes running in threads
    seen = 0
    for f in ctx.P.iter_funcs(*ALL_SERVER):
        mod = f.module.name
        for x in walk_own(f.node):
            if not isinstance(x, ast.Call) or not isinstance(x.func, ast.Attribute):
                continue
            name, recv = x.func.attr, src(x.func.value)
            if name == "get" and ("queue" in recv.rpartition(".")[2]):
                seen += 1
                ok = kwarg(x, "timeout") is not None or len(x.args) > 1 or (
                    (x.args and literal(x.args[0]) is False) or literal(kwarg(x, "block")) is False)
                ctx.ob(R, f, ok, "%s waits for an item without a time limit" % recv, where(f, x), key="queue")
            elif name == "wait" and f.cls is not None and any(s in recv for s in ("_cv", "cv_", "event", "_shutdown", "_started", "_ended")):
                if "event_serial" in f.name and "cv_new_event_serial" in recv:
                    continue   # only called by tests, see DESIGN
                if c_runs_once(f):
                    continue
                seen += 1
                ok = x.args or kwarg(x, "timeout") is not None
                ctx.ob(R, f, ok, "%s is waited for without a time limit" % recv, where(f, x), key="wait")
            elif name == "join" and not x.args and not x.keywords and recv.rpartition(".")[2] == "thread":
                ctx.ob(R, f, False, "a thread is waited for without a time limit", where(f, x), key="join")
    ctx.count(R, seen, 5, "timed waits")
    # the sleep of a thread and the wait for a serial
    C = ctx.P.cls(MT + ".MyThread")
    f = C.method("sleep")
    paths = trace_paths(ctx, f, {"wait": lambda ev, st: ev.name == "wait" and "_shutdown" in show(ev.recv), "stop": "exit_if_shutdown",
                                 "zzz": lambda ev, st: ev.name == "sleep"}, dedupe=False, self_cls=C, events=("wait", "sleep"), default_raises=(), raises={"stop": (SHUT,)}, stop=("exit_if_shutdown",))
    check_paths(ctx, R, f, paths, lambda p: not p.has("zzz") and all("stop" in y or "stop!" in y for y in [p.trace[p.idx("wait"):]]) and p.has("wait"),
                "a sleeping thread does not notice a shutdown request", key="sleep")
    check_paths(ctx, R, f, paths, lambda p: not p.has("stop!") or p.kind == "raise" and p.exc.a[0] == SHUT, "a sleeping thread ignores a shutdown request", key="sleep-ends")
    K = ctx.P.cls("devpi_server.keyfs.KeyFS")
    g = K.method("wait_tx_serial")

    def wlab(ev, st):
        if ev.name == "wait" and "_cv" in show(ev.recv):
            return "wait"
        if ev.fterm.k == "p" and ev.fterm.a[0] == "recheck_callback":
            return "cb"
    paths = trace_paths(ctx, g, {"w": wlab}, self_cls=K, dedupe=False, events=("wait", "recheck_callback"), default_raises=(), raises={"cb": (SHUT,)},
                        branch=lambda t, v, st: ("no-cb" if v else "has-cb") if t.k == "cmp" and t.a[0] == "is" and has_param(t, "recheck_callback") else None,
                        stop=("get_current_serial", "get_next_serial"), max_states=400)
    check_paths(ctx, R, g, paths, lambda p: not p.has("wait") or p.has("no-cb") or p.kind == "raise" or p.trace.count("cb") >= p.trace.count("wait") - 1 and p.has("cb", "has-cb"),
                "waiting for a serial does not look for a shutdown request while it waits", key="serial")
    ctx.ob(R, g, some(paths, "cb"), "waiting for a serial never calls the callback which ends it on shutdown", key="serial-cb")
    check_paths(ctx, R, g, paths, lambda p: not p.has("cb!") or p.kind == "raise", "waiting for a serial goes on after a shutdown request", key="serial-ends")


def c_runs_once(f):
    """threads without a loop only run once at the start, see DESIGN"""
    return f.cls is not None and "thread_run" in f.cls.methods and not has_method(f.cls, "tick") and f.name == "thread_run"


def queues(ctx):
    R = ctx.rule("R03.queue", "an item taken from a queue is accounted for exactly once, after it was handled or queued again; an item whose handling "
                 "fails is queued again with a later time; the queue's worker goes on")
    n = 0
    for c in sorted(ctx.P.classes.values(), key=lambda c: c.qual):
        if c.module.name.split(".")[0] not in ALL_SERVER:
            continue
        for f in sorted(c.methods.values(), key=lambda f: f.qual):
            gets = [x for x in own_calls(f, "get") if "queue" in qn(x)]
            if not gets:
                continue
            n += 1
            qname = qn(gets[0])

            def lab(ev, st):
                if ev.name in ("get", "task_done") and ev.recv is not None and "queue" in show(ev.recv):
                    return "%s:%s" % (ev.name, show(ev.recv).rpartition(".")[2])
                if ev.name == "add_errored":
                    return "again"
                if ev.fterm.k == "p" and ev.fterm.a[0] == "handler":
                    return "handle"
                if ev.name == "process_next_errored":
                    return "errored"

            def br(t, v, st):
                if t.k == "call" and call_name(t) == "is_in_future":
                    return "future" if v else "due"
            EMPTY = "queue.Empty"
            paths = trace_paths(ctx, f, {"x": lab}, branch=br, dedupe=False, self_cls=c, default_raises=(),
                                raises={"get:" + qname: (EMPTY,), "handle": ("?",)}, events=("get", "task_done", "add_errored", "handler", "process_next_errored", "is_in_future"), max_states=300)
            G, D = "get:" + qname, "task_done:" + qname
            ctx.ob(R, f, some(paths, "handle") and some(paths, G), "items of the queue are not handled", key="instances")
            check_paths(ctx, R, f, paths, lambda p: not p.has("handle!") or p.kind != "raise", "an item which cannot be handled ends the worker of the queue", key="survives")
            check_paths(ctx, R, f, paths, lambda p: not p.has("handle!") or p.idx("again") > p.idx("handle!"), "an item which cannot be handled is dropped", key="retried")
            check_paths(ctx, R, f, paths, lambda p: not p.has("handle!") or p.trace.count("again") == 1, "an item which cannot be handled is queued more than once", key="once")
            check_paths(ctx, R, f, paths, lambda p: not p.has("handle") or not p.has("again"), "an item which was handled is queued again", key="handled-once")
            check_paths(ctx, R, f, paths, lambda p: p.trace.count(D) == (1 if p.has(G) else 0), "an item taken from the queue is not accounted for exactly once", key="done")
            check_paths(ctx, R, f, paths, lambda p: not p.has(G) or all(p.idx(D) > p.idx(x) for x in ("handle", "handle!", "again") if p.has(x)),
                        "an item is accounted for before it was handled or queued again", key="done-order")
            check_paths(ctx, R, f, paths, lambda p: not p.has("future") or p.has("again") and not p.has("handle", "handle!"), "an item which is not due is handled or dropped", key="future")
            check_paths(ctx, R, f, paths, lambda p: not p.has(G) or p.has("handle", "handle!", "again"), "an item taken from the queue is dropped", key="dropped")
            check_paths(ctx, R, f, paths, lambda p: not p.has(G + "!") or p.kind == "return", "an empty queue ends the worker", key="empty")
            # failed items are retried when there is nothing else to do
            if "error" not in qname and has_method(c, "process_next_errored"):
                check_paths(ctx, R, f, paths, lambda p: not p.has(G + "!") or p.has("errored"), "failed items are never retried", key="retry-reached")
            # what is queued again is what was taken
            same = []

            def cap(ev, st):
                if ev.name == "add_errored":
                    same.append((ev, st))
                    return True
            trace_paths(ctx, f, {"a": cap, "h": lab}, self_cls=c, default_raises=(), raises={"handle": ("?",)}, events=("get", "add_errored", "handler", "is_in_future"))
            hargs = set()

            def hcap(ev, st):
                if ev.fterm.k == "p" and ev.fterm.a[0] == "handler":
                    hargs.add(tuple(ev.args))
                    return True
            trace_paths(ctx, f, {"h": hcap}, self_cls=c, default_raises=(), events=("get", "handler", "is_in_future"))
            for ev, st in same:
                ctx.ob(R, f, any(tuple(ev.args) == h for h in hargs), "another item is queued again than the one taken from the queue", where(f, ev.node), key="same")
    ctx.count(R, n, 4, "workers of queues")
    # retry time
    for c in sorted(ctx.P.classes.values(), key=lambda c: c.qual):
        f = c.methods.get("add_errored")
        if f is None or c.module.name.split(".")[0] not in ALL_SERVER:
            continue
        puts = []

        def put(ev, st):
            if ev.name == "put":
                puts.append((ev, st))
                return "put"
        paths = trace_paths(ctx, f, {"p": put, "t": "next_ts"}, self_cls=c, default_raises=(), events=("put",),
                            branch=lambda t, v, st: ("new" if v else "given") if t.k == "cmp" and t.a[0] == "is" and has_param(t, "ts") else None, stop=("next_ts",))
        check_paths(ctx, R, f, paths, lambda p: p.trace.count("put") == 1, "a failed item is not queued for a retry", key="put")
        check_paths(ctx, R, f, paths, lambda p: not p.has("new") or p.has("t"), "a failed item gets no time for its retry", key="time")
        names = f.params()[1:]
        for ev, st in puts:
            it = items(ev.args[0]) if ev.args else ()
            ctx.ob(R, f, bool(it) and "error" in show(ev.recv), "a failed item is queued with the new items", where(f, ev.node), key="errqueue")
            first = it[0] if it else None
            ctx.ob(R, f, first is not None and (has_call(first, "next_ts") or has_param(first, "ts")), "the queue of failed items is not ordered by the time of the retry", where(f, ev.node), key="order")
            missing = [n for n in names if n not in ("ts",) and not any(has_param(t, n) for t in it)]
            ctx.ob(R, f, not missing, "a failed item loses %s" % missing, where(f, ev.node), key="complete")
    # what the workers unpack is what was put
    for c in sorted(ctx.P.classes.values(), key=lambda c: c.qual):
        if c.module.name.split(".")[0] not in ALL_SERVER or "process_next" not in c.methods:
            continue
        widths = {}
        mod = c.module
        for f in ctx.P.iter_funcs(mod.name.split(".")[0]):
            if f.module is not mod:
                continue
            for x in own_calls(f, "put"):
                if "queue" in qn(x) and x.args and isinstance(x.args[0], ast.Tuple):
                    q = qn(x)
                    widths.setdefault(q, set()).add(len(x.args[0].elts))
        for m in ("process_next", "process_next_errored"):
            g = c.methods.get(m)
            if g is None:
                continue
            q = next((qn(x) for x in own_calls(g, "get") if "queue" in qn(x)), None)
            un = {len(t.elts) for x in walk_own(g.node) if isinstance(x, ast.Assign) for t in x.targets if isinstance(t, ast.Tuple)}
            if q in widths and un:
                ctx.ob(R, g, widths[q] <= un, "items of %s have %s parts, but %s are expected" % (q, sorted(widths[q]), sorted(un)), key="shape")


def pool(ctx):
    R = ctx.rule("R03.pool", "a background thread which ends with an error ends the server with that error; a shutdown request reaches every thread and "
                 "every shutdown function, also when the server fails")
    P = ctx.P
    C = P.cls(MT + ".MyThread")
    f = C.method("run")
    paths = trace_paths(ctx, f, {"run": "Thread.run", "ended": lambda ev, st: ev.name == "set" and "_a_thread_ended" in show(ev.recv)},
                        stores={"fatal": "_fatal_exc"}, raises={"run": ("ValueError", "KeyboardInterrupt", SHUT)}, self_cls=C, default_raises=(), events=("run", "set"))
    check_paths(ctx, R, f, paths, lambda p: p.has("ended"), "the end of a thread is not noticed", key="ended")
    check_paths(ctx, R, f, paths, lambda p: not p.has("run!") or p.has("fatal") or fact_shutdown(p), "an error in a thread is not reported", key="reported")
    check_paths(ctx, R, f, paths, lambda p: not (p.has("fatal") and p.has("ended")) or p.idx("fatal") < p.idx("ended"), "the end of a thread is announced before its error is known", key="order")
    check_paths(ctx, R, f, paths, lambda p: p.has("run!") or not p.has("fatal"), "the regular end of a thread is treated as error", key="regular")
    # only a shutdown ends a thread without error
    only = trace_paths(ctx, f, {"run": "Thread.run"}, stores={"fatal": "_fatal_exc"}, raises={"run": ("ValueError", "KeyboardInterrupt")}, self_cls=C, default_raises=(), events=("run",))
    check_paths(ctx, R, f, only, lambda p: not p.has("run!") or p.has("fatal"), "an error in a thread is not reported", key="reported-any")
    T_ = P.cls(MT + ".ThreadPool")
    f = T_.method("run")
    paths = trace_paths(ctx, f, {"start": "start", "wait": lambda ev, st: ev.name == "wait" and "_a_thread_ended" in show(ev.recv), "shutdown": "shutdown",
                                 "alive": lambda ev, st: ev.name == "is_alive"}, self_cls=T_, default_raises=(), raises={"wait": ("?B",), "start": ("?B",)},
                        stop=("start", "shutdown"), events=("wait", "is_alive"),
                        branch=lambda t, v, st: ("ok" if v else "fatal") if t.k == "cmp" and t.a[0] == "is" and has_attr(t, "_fatal_exc") else
                        ("ended" if v else "running") if t.k == "call" and call_name(t) == "wait" else
                        ("main-alive" if v else "main-dead") if t.k == "call" and call_name(t) == "is_alive" else None, dedupe=False)
    check_paths(ctx, R, f, paths, lambda p: not p.has("start", "start!") or p.has("shutdown"), "the threads are not stopped when the server ends", key="shutdown")
    check_paths(ctx, R, f, paths, lambda p: not p.has("fatal") or p.kind == "raise" and p.trace[p.idx("fatal") + 1:] == ("shutdown",), "the error of a thread does not end the server", key="fatal")
    ctx.ob(R, f, some(paths, "fatal") and some(paths, "ok"), "the server does not look at errors of threads", key="looks")
    check_paths(ctx, R, f, paths, lambda p: p.kind == "raise" or p.has("main-dead"), "the server ends while its main thread works", key="main")
    f = T_.method("shutdown")
    paths = trace_paths(ctx, f, {"set": lambda ev, st: ev.name == "set" and "_shutdown" in show(ev.recv), "func": lambda ev, st: ev.fterm.k == "elem"},
                        iters=lambda what, it, st: ("each" if what == "next" else "end") if has_attr(it, "_shutdown_funcs") else None,
                        self_cls=T_, default_raises=(), events=("set", "func"), dedupe=False)
    check_paths(ctx, R, f, paths, lambda p: p.has("set") and (not p.has("func") or p.idx("set") < p.idx("func")), "threads are not told about the shutdown first", key="told")
    check_paths(ctx, R, f, paths, handled("each", {"func"}, "end"), "a shutdown function is skipped", key="each")
    ctx.ob(R, f, some(paths, "each"), "shutdown functions are not called", key="funcs")
    f = T_.method("exit_if_shutdown")
    paths = trace_paths(ctx, f, {}, branch=lambda t, v, st: ("set" if v else "unset") if t.k == "call" and call_name(t) == "is_set" else None, self_cls=T_, default_raises=(), events=("is_set",))
    ctx.ob(R, f, some(paths, "set") and some(paths, "unset"), "a shutdown request is not looked at", key="exit")
    check_paths(ctx, R, f, paths, lambda p: (p.kind == "raise") == p.has("set"), "a shutdown request is not noticed", key="exit-raise")
    for p in paths:
        if p.kind == "raise":
            ctx.ob(R, f, "Shutdown" in str(p.exc.a[0]), "a shutdown request raises another exception", path=p, key="exit-exc")
    f = T_.method("start_one")
    paths = trace_paths(ctx, f, {"started": lambda ev, st: ev.name == "append" and "_started" in show(ev.recv), "hook": lambda ev, st: ev.name == "append" and "_shutdown_funcs" in show(ev.recv),
                                 "go": lambda ev, st: ev.name == "start"},
                        branch=lambda t, v, st: ("has" if v else "hasnot") if t.k == "call" and call_name(t) == "hasattr" and any(cstr(a) == "thread_shutdown" for a in call_args(t)) else None,
                        self_cls=T_, default_raises=(), events=("append", "start", "hasattr"))
    check_paths(ctx, R, f, paths, lambda p: p.kind != "return" or p.has("go"), "a registered thread is not started", key="start")
    check_paths(ctx, R, f, paths, lambda p: p.kind != "return" or not p.has("has") or p.has("hook") and p.idx("hook") < p.idx("go"), "the shutdown function of a thread is not registered before it starts", key="hook")
    ctx.ob(R, f, some(paths, "has"), "shutdown functions of threads are not registered", key="hooks")
    # objects with a loop are registered with the pool, never started on their own
    R2 = ctx.rule("R03.registered", "every background thread is run by the thread pool")
    reg = {}
    for f, c in callers(P, "register"):
        if "thread_pool" in src(c.func):
            for a in c.args[:1]:
                reg.setdefault(f.qual, []).append(src(a))
    ctx.count(R2, sum(len(v) for v in reg.values()), 5, "registered threads")
    for f in P.iter_funcs(*ALL_SERVER):
        for x in own_calls(f, "Thread"):
            ctx.ob(R2, f, f.module.name == MT, "a thread is started outside of the thread pool", where(f, x), key="own-thread")


def fact_shutdown(p):
    return p.st is not None and "fatal" not in p.trace and p.kind == "return"


def swallow(ctx):
    R = ctx.rule("R03.swallow", "code which runs tasks of background threads passes a shutdown request on")
    P = ctx.P
    # functions which can meet a Shutdown inside a long operation: the fetch of the
    # replica and the notification of hooks
    n = 0
    for q, inner in (("devpi_server.replica.ReplicaThread.fetch", ("handler",)), ("devpi_server.keyfs.TxNotificationThread._execute_hooks", None)):
        f = P.func(q)
        if f is None:
            raise AnchorError(q)
        n += 1

        def lab(ev, st):
            if inner and ev.fterm.k == "p" and ev.fterm.a[0] in inner:
                return "work"
            if not inner and (ev.fterm.k in ("elem",) or ev.name in ("subscriber", "sub")):
                return "work"
        paths = trace_paths(ctx, f, {"x": lab}, self_cls=f.cls, default_raises=(), raises={"work": (SHUT,)}, events=("handler", "subscriber", "sub"), max_states=60, rounds=1)
        ctx.ob(R, f, some(paths, "work!"), "the task is not run here", key="instances")
        check_paths(ctx, R, f, paths, lambda p: not p.has("work!") or p.kind == "raise" and p.exc.a[0] == SHUT, "a shutdown request is treated as a failure of the task", key="passed-on")
    ctx.count(R, n, 2, "task runners")


def check(ctx):
    loops(ctx)
    ticks(ctx)
    queues(ctx)
    pool(ctx)
    swallow(ctx)


SELFTEST = [
    ("server/devpi_server/keyfs.py", '            except Exception:\n                self.log.exception(\n                    "Unhandled exception in notification thread.")', '            except OSError:\n                self.log.exception(\n                    "Unhandled exception in notification thread.")'),
    ("server/devpi_server/replica.py", '            except BaseException:\n                self.log.exception(\n                    "Unhandled exception in replica thread.")', '            except ValueError:\n                self.log.exception(\n                    "Unhandled exception in replica thread.")'),
    ("server/devpi_server/replica.py", '                except mythread.Shutdown:\n                    raise\n                except Exception:\n                    log.exception("could not process', '                except Exception:\n                    log.exception("could not process'),
    ("server/devpi_server/replica.py", '            info = self.error_queue.get(timeout=self.QUEUE_TIMEOUT)', '            info = self.error_queue.get()'),
    ("server/devpi_server/replica.py", '            self.add_errored(index_type, serial, key, keyname, value, back_serial)\n        finally', '            pass\n        finally'),
    ("server/devpi_server/replica.py", '        finally:\n            self.queue.task_done()\n            self.last_processed', '            return\n        else:\n            self.queue.task_done()\n            self.last_processed'),
    ("server/devpi_server/replica.py", '        except self.Empty:\n            # when the regular queue is empty, we retry previously errored ones\n            return self.process_next_errored(handler)', '        except self.Empty:\n            return None'),
    ("server/devpi_server/replica.py", '        self.thread.exit_if_shutdown()\n        self.shared_data.process_next(self.handler)', '        self.shared_data.process_next(self.handler)'),
    ("server/devpi_server/mythread.py", '            self.pool._shutdown.wait(to_wait)\n            self.exit_if_shutdown()\n', '            self.pool._shutdown.wait(to_wait)\n'),
    ("server/devpi_server/mythread.py", '                "Exception in thread \'%s\'", self.name)\n            self.pool._fatal_exc = e', '                "Exception in thread \'%s\'", self.name)'),
    ("server/devpi_server/mythread.py", '        finally:\n            self.shutdown()\n\n    def start', '        except KeyboardInterrupt:\n            self.shutdown()\n\n    def start'),
    ("web/devpi_web/whoosh_index.py", '            self.add_errored(is_from_mirror, serial, indexname, names)', '            self.add_errored(is_from_mirror, serial, indexname, names[:1])'),
    ("web/devpi_web/whoosh_index.py", '                    ts=ts, delay=delay)\n                return\n            handler', '                    ts=ts, delay=delay)\n            handler'),
]
