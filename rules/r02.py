"""R02: locks, connections and files of transfers are released on every path."""
from rules.lib import *  # noqa

M = "devpi_server.mirror"
CM_MAKERS = ("get_connection", "io_file_open", "io_file_new_open", "file_open_read", "file_new_open", "Archive", "read_transaction", "write_transaction", "transaction", "_transaction", "locked_unpack_path")
RELEASE = ("close", "release", "flock", "lockf", "clear_transaction", "rollback", "thread_pop_log", "cancel", "task_done")


def parents(f):
    res = {}
    for x in ast.walk(f.node):
        for c in ast.iter_child_nodes(x):
            res[c] = x
    return res


def project_lock(ctx):
    R = ctx.rule("R02.project", "the lock of a project is released when the operation holding it ends, whichever way")
    P = ctx.P
    n = 0
    for f in P.iter_funcs(*ALL_SERVER):
        if f.cls is not None and f.cls.name in ("ProjectUpdateLock", "ProjectUpdateCache", "ProjectUpdateInnerLock"):
            continue
        for c in own_calls(f, "acquire"):
            if f.is_cm or not isinstance(c.func, ast.Attribute):
                continue
            n += 1
            timed = len(c.args) >= 2 or any(k.arg == "timeout" for k in c.keywords)
            ctx.ob(R, f, timed, "a lock is waited for without a time limit", where(f, c), key="timeout")

            def lab(ev, st):
                if ev.name == "acquire":
                    return "acquire"
                if ev.name == "on_finished" and ev.args and contains(ev.args[0], lambda x: x.k == "attr" and x.a[1] == "release"):
                    return "registered"
                if ev.name == "release":
                    return "release"
                if ev.name == "defer":
                    return "defer"
                return "other" if ev.name not in ("debug", "info", "warn") else None

            def br(t, v, st):
                if t.k == "cmp" and t.a[0] == "is" and has_call(t, "acquire") and contains(t, lambda x: x == NONE):
                    return "nolock" if v else "lock"
                if t.k == "call" and call_name(t) == "acquire":
                    return "lock" if v else "nolock"
            paths = trace_paths(ctx, f, {"x": lab}, self_cls=f.cls, default_raises=(), branch=br, dedupe=True, rounds=1, max_states=400, follow=lambda g, ev, d: False)
            for p in paths:
                i = p.idx("acquire")
                if i < 0 or p.has("nolock"):
                    continue
                j = min([x for x in (p.idx("registered"), p.idx("release")) if x >= 0], default=-1)
                ctx.ob(R, f, j > i, "a lock which was acquired is not released", path=p, key="released")
                if j > i:
                    between = [x for x in p.trace[i + 1:j] if x in ("other", "other!")]
                    ctx.ob(R, f, not between, "an error after acquiring a lock leaves it locked", path=p, key="at-once")
                # a deferred lock has a task which releases it
    ctx.count(R, n, 1, "locks of projects")
    cls = P.classes[M + ".MirrorStage"]
    f = cls.methods["_update_simplelinks_in_future"]
    lock = f.params()[-1] if "lock" not in f.params() else "lock"

    def lab(ev, st):
        if ev.name == "release":
            return "release"
        if ev.name == "on_finished" and ev.args and contains(ev.args[0], lambda x: x.k == "attr" and x.a[1] == "release"):
            return "release"
        if ev.name in ("_load_cache_links", "_update_simplelinks", "write_transaction", "join_links_data"):
            return "work"

    def br(t, v, st):
        if t.k == "cmp" and t.a[0] == "is" and has_param(t, lock):
            return "nolock" if v else None
        if t.k == "p" and t.a[0] == lock:
            return None if v else "nolock"
    awaits = [x for x in walk_own(f.node) if isinstance(x, ast.Await)]
    paths = trace_paths(ctx, f, {"x": lab}, self_cls=cls, branch=br, default_raises=("?B",), events=("release", "on_finished", "_load_cache_links", "_update_simplelinks", "write_transaction", "join_links_data"), follow=lambda g, ev, d: False, raises={"release": ()}, iter_raise=lambda it, st: "await!" if call_name(it) == "await" else None)
    ctx.ob(R, f, bool(awaits) and any(p.kind == "raise" for p in paths), "no failures in the background", key="cases")
    for p in paths:
        ctx.ob(R, f, p.has("release", "nolock"), "an update in the background ends without releasing the lock of the project", path=p, key="background")
    # a result which never comes must end the wait
    for x in walk_own(f.node):
        pass
    g = cls.methods["_async_fetch_releaselinks"]

    def lab(ev, st):
        if ev.name in ("set_result", "set_exception", "cancel") and ev.recv is not None and has_param(ev.recv, "newlinks_future"):
            return "done"
        if ev.name == "async_httpget":
            return "get"
    paths = trace_paths(ctx, g, {"x": lab}, self_cls=cls, default_raises=("?B",), raises={"done": ()}, events=("set_result", "set_exception", "cancel", "async_httpget", "parse_index", "parse_index_v1_json", "joinpath", "get_etag"), follow=lambda h, ev, d: h.cls is cls and h.name.startswith("_async_fetch"))
    ctx.ob(R, g, any(p.kind == "raise" for p in paths), "no failing retrieval", key="fails")
    for p in paths:
        if p.kind == "raise" and p.has("get", "get!") or p.kind == "return":
            ctx.ob(R, g, p.has("done"), "a retrieval ends without telling those waiting for its result, which keep the lock of the project", path=p, key="future")
    # the lock classes
    c = P.classes[M + ".ProjectUpdateLock"]
    h = c.methods["release"]
    paths = trace_paths(ctx, h, {"x": lambda ev, st: "release" if ev.name == "release" else None}, stores={"s": lambda e, st: "cleared" if e.kind == "attr" and e.name == "lock" and e.value == NONE else None}, self_cls=c, default_raises=(), branch=lambda t, v, st: ("none" if v else None) if t.k == "cmp" and t.a[0] == "is" and has_attr(t, "lock") else ("none" if not v else None) if t.k == "attr" and t.a[1] == "lock" else None, follow=lambda g, ev, d: False)
    for p in paths:
        ctx.ob(R, h, p.has("none") or p.has("release"), "releasing the lock of a project leaves it locked", path=p, key="release")
        ctx.ob(R, h, p.has("none") or p.has("cleared"), "the lock of a project is released twice, maybe that of another operation", path=p, key="once")
    h = c.methods["defer"]
    paths = trace_paths(ctx, h, {}, stores={"s": lambda e, st: "cleared" if e.kind == "attr" and e.name == "lock" and e.value == NONE else None}, self_cls=c, default_raises=())
    for p in live_paths(paths):
        ctx.ob(R, h, p.has("cleared") and p.ret is not None and p.ret != NONE, "a deferred lock is released by two owners", path=p, key="defer")
    h = c.methods["acquire"]
    for x in own_calls(h, "acquire"):
        ctx.ob(R, h, any(k.arg == "timeout" for k in x.keywords) or len(x.args) > 1, "the lock of a project is waited for without limit", where(h, x), key="limit")
    h = P.classes[M + ".ProjectUpdateCache"].methods["acquire"]
    for x in own_calls(h, "acquire"):
        v = kwarg(x, "timeout") or (x.args[0] if x.args else None)
        ctx.ob(R, h, v is not None and "timeout" in names_in(v), "the time limit for a lock is ignored", where(h, x), key="limit")
    # who defers gives the lock to the background task
    for f, x in callers(P, "defer", prefixes=("devpi_server",)):
        pm = parents(f)
        y, ok = x, False
        while y in pm:
            y = pm[y]
            if isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr == "_update_simplelinks_in_future":
                ok = True
        if not ok:
            # assigned first
            ok = any(isinstance(z, ast.Assign) and any(w is x for w in ast.walk(z)) for z in walk_own(f.node)) and any(calls_in(f.node, "_update_simplelinks_in_future"))
        ctx.ob(R, f, ok, "a lock is deferred without an owner", where(f, x), key="deferred")


def plain_locks(ctx):
    R = ctx.rule("R02.locks", "other locks are only held inside a with statement")
    P = ctx.P
    n = 0
    for f in P.iter_funcs(*ALL_SERVER):
        for c in own_calls(f, "acquire", "flock", "lockf"):
            name = c.func.attr if isinstance(c.func, ast.Attribute) else c.func.id
            if f.cls is not None and f.cls.name in ("ProjectUpdateLock", "ProjectUpdateCache", "ProjectUpdateInnerLock"):
                continue
            if name == "acquire":
                if f.qual.endswith("get_simplelinks_perstage"):
                    continue
            if name in ("flock", "lockf"):
                if not any("LOCK_EX" in src(a) or "LOCK_SH" in src(a) for a in c.args):
                    continue
                n += 1

                def lab(ev, st):
                    if ev.name in ("flock", "lockf"):
                        return "unlock" if any(contains(a, lambda x: x.k in ("attr", "ref") and show(x).endswith("LOCK_UN")) for a in ev.args) else "lock"
                paths = trace_paths(ctx, f, {"x": lab}, self_cls=f.cls, default_raises=(), yields="user", yield_exc=("?B",), follow=lambda g, ev, d: False, with_label=lambda w, cm, st: "closed" if w in ("exit", "exit!") and has_call(cm, "open") else None)
                for p in paths:
                    if p.has("lock"):
                        ctx.ob(R, f, p.last("unlock") > p.last("lock") or p.last("closed") > p.last("lock"), "a file lock is not released", path=p, key="flock")
                        if "user" in p.trace:
                            i = p.trace.index("user")
                            ctx.ob(R, f, "unlock" not in p.trace[:i] and "closed" not in p.trace[:i], "a file lock is released before the work it protects", path=p, key="early")
                ctx.ob(R, f, some(paths, "lock"), "no lock", key="cases")
    # generators which are context managers release after a failing body as well
    for f in P.iter_funcs(*ALL_SERVER):
        if not f.is_cm:
            continue
        rel = {}
        ys = [x for x in walk_own(f.node) if isinstance(x, ast.Yield)]
        if not ys:
            continue

        def lab(ev, st):
            if ev.name in RELEASE:
                return "rel:" + ev.name
        try:
            paths = trace_paths(ctx, f, {"x": lab}, self_cls=f.cls, default_raises=(), yields="user", yield_exc=("?B",), events=RELEASE, follow=lambda g, ev, d: False)
        except AnchorError:
            continue
        # what each normal path releases
        sets = [{x for x in p.trace[p.trace.index("user"):] if x.startswith("rel:")} for p in live_paths(paths) if "user" in p.trace]
        want = set.intersection(*sets) if sets else set()
        n += 1
        for p in paths:
            if p.kind == "raise" and ("user" in p.trace or "user!" in p.trace):
                i = p.trace.index("user") if "user" in p.trace else p.trace.index("user!")
                miss = want - set(p.trace[i:])
                ctx.ob(R, f, not miss, "after a failure in its body %s is not called" % sorted(miss), path=p, key="cm")
    ctx.count(R, n, 4, "locks and context managers")
    # a lock is not taken in two ways
    for f in P.iter_funcs(*ALL_SERVER):
        for x in walk_own(f.node):
            if isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Attribute) and x.value.func.attr == "acquire":
                ctx.ob(R, f, False, "a lock is acquired outside of a with statement", where(f, x), key="bare")


def connections(ctx):
    R = ctx.rule("R02.connections", "database connections are closed by a with statement or by the transaction which owns them")
    P = ctx.P
    n = 0
    for f, c in callers(P, "get_connection"):
        pm = parents(f)
        if f.name == "get_connection":
            continue
        n += 1
        par = pm.get(c)
        kw = kwarg(c, "closing")
        notclosing = (kw is not None and literal(kw) is False) or (c.args and literal(c.args[0]) is False)
        managed = isinstance(par, ast.withitem) or isinstance(par, ast.Call) and isinstance(par.func, ast.Attribute) and par.func.attr == "enter_context"
        if not managed and isinstance(par, ast.Assign) and isinstance(par.targets[0], ast.Name):
            v = par.targets[0].id
            managed = any(isinstance(x, ast.withitem) and isinstance(x.context_expr, ast.Name) and x.context_expr.id == v for x in ast.walk(f.node)) or closed_in_finally(f, v)
        if isinstance(par, ast.Call) and src(par.func).endswith("closing"):
            managed, notclosing = isinstance(pm.get(par), ast.withitem), False
        if isinstance(par, ast.Return) or (isinstance(par, ast.Lambda)):
            # handed over: the owner is the transaction (its closing is K01)
            ctx.ob(R, f, f.cls is not None and f.cls.name in ("Transaction", "FileStoreTransaction", "KeyFS"), "a connection is handed over to someone who does not close it", where(f, c), key="owner")
            continue
        ctx.ob(R, f, managed and not notclosing, "a connection is not closed when the operation fails", where(f, c), key="managed")
    ctx.count(R, n, 8, "uses of connections")
    # what "closing" gives closes
    for cls, f in impls(P, "get_connection"):
        paths = trace_paths(ctx, f, {"x": lambda ev, st: None}, self_cls=cls, default_raises=(), branch=lambda t, v, st: ("closing" if v else "open") if t.k == "p" and t.a[0] == "closing" else None, follow=lambda g, ev, d: False, rounds=1)
        for p in live_paths(paths):
            if p.has("closing"):
                ctx.ob(R, f, p.ret is not None and p.ret.k == "call" and call_name(p.ret) in ("closing", "get_connection"), "the connection which is to be closed at the end is not", path=p, key="closing")


def closed_in_finally(f, v):
    for x in ast.walk(f.node):
        if isinstance(x, ast.Try):
            for s in x.finalbody:
                for y in ast.walk(s):
                    if isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr == "close" and isinstance(y.func.value, ast.Name) and y.func.value.id == v:
                        return True
    return False


def files(ctx):
    R = ctx.rule("R02.files", "files opened for reading or for a transfer are closed by a with statement, an exit stack or their owner")
    P = ctx.P
    n = 0
    for f, c in callers(P, "io_file_open", "io_file_new_open", "file_open_read", "file_new_open", "Archive"):
        if f.name in ("io_file_open", "io_file_new_open", "file_open_read", "file_new_open"):
            continue
        pm = parents(f)
        par = pm.get(c)
        n += 1
        while isinstance(par, ast.Call) and src(par.func).rpartition(".")[2] in ("TextIOWrapper", "BufferedReader", "closing"):
            # the wrapper closes what it wraps
            par = pm.get(par)
        ok = isinstance(par, ast.withitem) or isinstance(par, ast.Call) and isinstance(par.func, ast.Attribute) and par.func.attr in ("enter_context", "closing")
        ok = ok or isinstance(par, ast.Return)
        if not ok and isinstance(par, ast.Assign) and isinstance(par.targets[0], ast.Name):
            v = par.targets[0].id
            ok = closed_in_finally(f, v) or any(isinstance(x, ast.withitem) and v in names_in(x.context_expr) for x in ast.walk(f.node)) or any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("enter_context", "callback", "push") and any(v in names_in(a) for a in x.args) for x in ast.walk(f.node))
            # given to the response, which closes it
            ok = ok or any(isinstance(x, ast.Call) and src(x.func).rpartition(".")[2] in ("FileIter", "Response", "FileIterable") and any(v in names_in(a) for a in list(x.args) + [k.value for k in x.keywords]) for x in ast.walk(f.node))
        elif isinstance(par, ast.Call) and src(par.func).rpartition(".")[2] in ("FileIter",):
            ok = True
        elif isinstance(par, ast.Assign) and isinstance(par.targets[0], ast.Attribute):
            ok = f.cls is not None and ("close" in f.cls.methods or "__exit__" in f.cls.methods or "__del__" in f.cls.methods)
        ctx.ob(R, f, ok, "a file stays open when the operation fails", where(f, c), key="file")
    ctx.count(R, n, 8, "files opened")


def downloads(ctx):
    R = ctx.rule("R02.downloads", "the response of a download is closed on every way out")
    P = ctx.P
    n = 0
    for f in P.iter_funcs("devpi_server"):
        if not (any(True for _ in own_calls(f, "FileStreamer")) or f.qual == "devpi_server.replica.ReplicaThread.fetch"):
            continue
        got = [c for c in own_calls(f, "httpget", "get") if isinstance(c.func, ast.Attribute) and (c.func.attr == "httpget" or "session" in src(c.func.value))]
        if not got:
            continue
        n += 1

        def isresp(t):
            return t is not None and t.k == "call" and (call_name(t) == "httpget" or call_name(t) == "get" and call_recv(t) is not None and show(call_recv(t)).endswith("session"))

        def lab(ev, st):
            if ev.name == "httpget" or ev.name == "get" and ev.recv is not None and show(ev.recv).endswith("session"):
                return "got"
            if ev.name == "close" and isresp(ev.recv):
                return "closed"
            if ev.name == "callback" and ev.args and contains(ev.args[0], lambda x: x.k == "attr" and x.a[1] == "close" and isresp(x.a[0])):
                return "closed"
            if ev.name in ("enter_context",) and ev.args and has_call(ev.args[0], "closing") and contains(ev.args[0], isresp):
                return "closed"
            if ev.name == "FileStreamer":
                return "stream"

        def wl(w, cm, st):
            if w == "enter" and contains(cm, isresp) and (has_call(cm, "closing") or isresp(cm)):
                return "closed"
        paths = trace_paths(ctx, f, {"x": lab}, self_cls=f.cls, default_raises=(), with_label=wl, rounds=1, max_states=200, yields="y", yield_exc=("?B",), events=("httpget", "get", "close", "callback", "enter_context", "FileStreamer"), follow=lambda g, ev, d: False)
        for p in paths:
            if not p.has("got"):
                continue
            gots = [i for i, x in enumerate(p.trace) if x == "got"]
            for a, b in zip(gots, gots[1:] + [len(p.trace)]):
                ctx.ob(R, f, "closed" in p.trace[a:b], "the response of a download is not closed", path=p, key="closed")
            if p.has("stream"):
                ctx.ob(R, f, "closed" in p.trace[gots[-1]:p.idx("stream")], "a download which is aborted keeps its connection", path=p, key="stream")
    ctx.count(R, n, 3, "downloads")


def check(ctx):
    project_lock(ctx)
    plain_locks(ctx)
    connections(ctx)
    files(ctx)
    downloads(ctx)


MIRROR = "server/devpi_server/mirror.py"
SELFTEST = [
    (MIRROR, """        if lock is not None:
            self.keyfs.tx.on_finished(lock.release)
        is_expired, links, cache_serial = self._load_cache_links(project)
""", """        is_expired, links, cache_serial = self._load_cache_links(project)
        if lock is not None:
            self.keyfs.tx.on_finished(lock.release)
"""),
    (MIRROR, """        finally:
            # nobody must wait for a result which won't arrive anymore,
            # this does nothing if the result was set
            newlinks_future.cancel()
""", """        except self.UpstreamError:
            newlinks_future.cancel()
            raise
"""),
    (MIRROR, """        try:
            threadlog.debug("Awaiting simple links for %r", project)
            info = await newlinks_future
""", """        info = await newlinks_future
        try:
"""),
    (MIRROR, "        lock = self.lock\n        self.lock = None\n        return lock\n", "        lock = self.lock\n        return lock\n"),
    (MIRROR, "acquire(project, self.timeout)", "acquire(project)"),
    ("web/devpi_web/doczip.py", """            try:
                yield (hash_file, unpack_path)
            finally:
                if fcntl:
                    fcntl.flock(hash_file, fcntl.LOCK_UN)
""", """            if fcntl:
                fcntl.flock(hash_file, fcntl.LOCK_UN)
            yield (hash_file, unpack_path)
"""),
    ("server/devpi_server/views.py", """    r = stage.httpget(url, allow_redirects=True)
    if r.status_code != 200:
        r.close()
""", """    r = stage.httpget(url, allow_redirects=True)
    if r.status_code != 200:
"""),
    ("server/devpi_server/replica.py", """        with keyfs.get_connection(write=False) as conn:
            if conn.io_file_exists(entry._storepath):
                # we already have a file
                self.shared_data.errors.remove(entry)
                return
""", """        conn = keyfs.get_connection(closing=False, write=False)
        if conn.io_file_exists(entry._storepath):
            # we already have a file
            self.shared_data.errors.remove(entry)
            return
        conn.close()
"""),
    ("server/devpi_server/replica.py", """        with contextlib.closing(r):
            if r.status_code in (301, 302):""", """        if r.status_code in (301, 302):
            return False
        with contextlib.closing(r):
            if r.status_code in (301, 302):"""),
    ("web/devpi_web/doczip.py", """    with entry.file_open_read() as f:
        with Archive(f) as archive:
            return archive.read(relpath)""", """    f = entry.file_open_read()
    archive = Archive(f)
    return archive.read(relpath)"""),
]
