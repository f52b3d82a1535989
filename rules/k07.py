"""K07: replicas do not write and hand changes to the primary."""
from rules.lib import *  # noqa

KF = "devpi_server.keyfs"


def replica_test(t):
    """is this term the role test?"""
    return t.k == "call" and call_name(t) == "is_replica" or t.k == "cmp" and t.a[0] == "==" and has_attr(t, "role") and any(cstr(x) == "replica" for x in t.a[1:])


def store(ctx):
    R = ctx.rule("K07.readonly", "a key store opened read only never starts a write transaction; the server opens it read only exactly in the replica role")
    K = ctx.P.cls(KF + ".KeyFS")
    TX = ctx.P.cls(KF + ".Transaction")

    def br(t, v, st):
        if t.k == "attr" and t.a[1] == "_readonly":
            return "ro" if v else "rw"
        if t.k == "p" and t.a[0] == "write":
            return "write" if v else "read"
    f = K.method("begin_transaction_in_thread")
    paths = trace_paths(ctx, f, {"begin": lambda ev, st: any(t is TX or isinstance(t, Func) and t.cls is TX for t in ev.targets) and ev.name == "Transaction"},
                        branch=br, self_cls=K, events=("Transaction",), default_raises=())
    ctx.ob(R, f, some(paths, "begin"), "transactions are not started here", key="instances")

    def ok(p):
        if not p.has("begin"):
            return True
        before = p.trace[:p.idx("begin")]
        return "rw" in before or "read" in before
    check_paths(ctx, R, f, paths, ok, "a write transaction can be started on a read only store", key="begin")
    f = K.method("restart_as_write_transaction")

    def restart(ev, st):
        return ev.name == "restart"
    paths = trace_paths(ctx, f, {"begin": restart}, branch=br, self_cls=K, default_raises=())
    ctx.ob(R, f, some(paths, "begin"), "transactions are not restarted here", key="instances")
    check_paths(ctx, R, f, paths, lambda p: not p.has("begin") or "rw" in p.trace[:p.idx("begin")], "a read only store turns a read into a write transaction", key="restart")
    # nothing else creates or restarts writing transactions
    for g, c in callers(ctx.P, "restart"):
        w = kwarg(c, "write")
        a = w if w is not None else c.args[0] if c.args else None
        if "tx" not in src(c.func) and g.cls is not K:
            continue
        if a is not None and literal(a) is False:
            continue
        ctx.ob(R, g, g.name in ("restart_as_write_transaction",) or a is None, "a transaction is made writable without asking the store", key="restart-callers", where=where(g, c))
    for g, c in callers(ctx.P, "Transaction", prefixes=SERVER):
        if g.module.name == KF:
            ctx.ob(R, g, g.name == "begin_transaction_in_thread", "a transaction is created without asking the store", key="create-callers", where=where(g, c))
    # _readonly is what the constructor was given and never changes
    init = K.method("__init__")
    vals = []
    trace_paths(ctx, init, {}, stores={"s": lambda e, st: e.kind == "attr" and e.name == "_readonly" and not vals.append(e.value)}, self_cls=K, default_raises=())
    ctx.ob(R, init, bool(vals) and all(v is T("p", "readonly") for v in vals), "the store forgets that it is read only", key="init")
    for g in ctx.P.iter_funcs(*ALL_SERVER):
        for x in walk_own(g.node):
            if isinstance(x, ast.Attribute) and x.attr == "_readonly" and not isinstance(x.ctx, ast.Load) and g is not init:
                ctx.ob(R, g, False, "the store is made writable later", key="reset", where=where(g, x))
    n = 0
    for g in ctx.P.iter_funcs(*ALL_SERVER):
        for c in own_calls(g, "KeyFS"):
            n += 1
            got = []

            def mk(ev, st):
                if ev.name == "KeyFS":
                    a = ev.kwargs.get("readonly", ev.args[2] if len(ev.args) > 2 else None)
                    got.append(a)
                    return True
            trace_paths(ctx, g, {"mk": mk}, default_raises=(), follow=lambda h, ev, d: h.name in ("is_replica", "is_primary") or None if h.name in ("is_replica",) else False, quiet=("add_keys",))
            ctx.ob(R, g, bool(got) and all(a is not None and replica_test(a) for a in got), "the key store is not opened read only exactly on replicas", key="wired", where=where(g, c))
    ctx.count(R, n, 1, "creations of the key store")
    # direct storage writers
    n = 0
    for g, c in callers(ctx.P, "write_transaction"):
        recv = src(c.func.value) if isinstance(c.func, ast.Attribute) else ""
        if "conn" in recv.rpartition(".")[2] and g.module.name.startswith("devpi_server") and not (g.cls is not None and g.cls.find("io_file_set") is not None):
            n += 1
            ctx.ob(R, g, g.qual in (KF + ".KeyFS.import_changes", KF + ".Transaction.commit") or g.cls is not None and g.cls is TX, "the storage is written past the key store", key="direct", where=where(g, c))
    ctx.count(R, n, 2, "direct storage writers")
    for g, c in callers(ctx.P, "import_changes"):
        ok = g.cls is not None and g.cls.name == "ReplicaThread" or g.module.name.endswith("importexport")
        ctx.ob(R, g, ok, "changes are applied from elsewhere than the primary", key="import_changes", where=where(g, c))


def tween(ctx):
    R = ctx.rule("K07.tween", "requests on a replica run in read transactions; on other nodes each changing method runs in a write transaction")
    f = ctx.P.func("devpi_server.views.tween_keyfs_transaction")
    m = ctx.P.func("devpi_server.views.is_mutating_http_method")
    h = [g for g in f.nested.values()]
    if not h:
        raise AnchorError("the transaction tween has no handler")
    h = h[0]

    def tx(ev, st):
        n = ev.name
        if n in ("write_transaction", "read_transaction"):
            return n

    def br(t, v, st):
        if replica_test(t) or t.k == "free" and "replica" in t.a[0] or t.k == "attr" and t.a[1] == "_readonly":
            return "replica" if v else "other"
        if has_call(t, "is_mutating_http_method") and not (t.k == "bin"):
            return "mutating" if v else "reading"
    # the closure variables of the factory are evaluated first
    clos = {}
    for x in walk_own(f.node):
        if isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Name):
            clos[x.targets[0].id] = src(x.value)
    neg = {n for n, s in clos.items() if "is_replica" in s and s.lstrip().startswith("not ") or "is_primary" in s}
    pos = {n for n, s in clos.items() if "is_replica" in s and n not in neg}

    def br2(t, v, st):
        if t.k == "free" and t.a[0] in pos:
            return "replica" if v else "other"
        if t.k == "free" and t.a[0] in neg:
            return "other" if v else "replica"
        return br(t, v, st)
    paths = trace_paths(ctx, h, {"w": tx}, branch=br2, stop=("is_mutating_http_method",), events=("write_transaction", "read_transaction", "is_mutating_http_method", "is_replica"),
                        follow=lambda g, ev, d: g.parent is f or g.module is f.module and g.name not in ("is_mutating_http_method", "set_header_devpi_serial") and None, default_raises=())
    ctx.ob(R, h, some(paths, "write_transaction") and some(paths, "read_transaction"), "requests do not run in transactions", key="instances")

    def ok(p):
        if p.has("write_transaction"):
            return p.has("other") and not p.has("replica") and p.has("mutating")
        if p.has("read_transaction"):
            return p.has("reading") or p.has("replica")
        return p.kind == "raise"
    check_paths(ctx, R, h, paths, ok, "the kind of transaction does not follow from role and method", key="kind")
    mp = trace_paths(ctx, m, {})
    sets = set()
    for p in mp:
        t = p.ret
        if t is not None and t.k == "cmp" and t.a[0] == "in" and (items(t.a[2])):
            sets |= {cstr(x) for x in items(t.a[2])}
        elif t is not None:
            for x in subterms(t):
                if cstr(x) and cstr(x).isupper():
                    sets.add(cstr(x))
                if x.k == "ref" or x.k == "attr":
                    g = m.module.globals.get((refname(x) or "").rpartition(".")[2])
                    if g is not None:
                        sets |= {y for y in strings_in(g)}
    for x in walk_own(m.node):
        if isinstance(x, ast.Constant) and isinstance(x.value, str) and x.value.isupper():
            sets.add(x.value)
    ctx.ob(R, m, MUTATING <= sets and not sets & {"GET", "HEAD", "OPTIONS"}, "the methods counted as changing are %s" % sorted(sets), key="methods")


def deriver(ctx):
    R = ctx.rule("K07.proxy", "on a replica each view for a changing method is replaced by the one which asks the primary, unless it is marked as only reading")
    f = ctx.P.func("devpi_server.main.XOM.view_deriver")
    X = ctx.P.cls("devpi_server.main.XOM")

    def br(t, v, st):
        if replica_test(t):
            return "replica" if v else "other"
        if has_call(t, "is_mutating_http_method"):
            return "mutating" if v else "reading"
        if has_str(t, "is_mutating"):
            return "marked-mutating" if v else "marked-reading"

    def opt(ev, st):
        if ev.name == "get" and ev.args and cstr(ev.args[0]) == "is_mutating":
            return "default-" + str(cval(ev.args[1]) if len(ev.args) > 1 and ev.args[1].k == "c" else None)
    paths = trace_paths(ctx, f, {"o": opt}, branch=br, self_cls=X, default_raises=(), stop=("is_mutating_http_method", "ensure_list", "is_replica"),
                        iters=lambda w, it, st: "method" if w == "next" else "methods-end")
    view = T("p", f.params()[1])
    ctx.ob(R, f, some(paths, "mutating"), "the methods of a view are not looked at", key="instances")

    def ok(p):
        if p.kind != "return":
            return True
        proxied = p.ret is not None and (refname(p.ret) or "").endswith("proxy_view_to_primary") or p.ret is not None and p.ret.k == "func" and "proxy_view_to_primary" in show(p.ret)
        if p.has("replica") and p.has("mutating") and not p.has("marked-reading"):
            return proxied
        return p.ret is view
    check_paths(ctx, R, f, paths, ok, "a view which changes state is not handed to the primary (or one which does not is)", key="proxied")
    check_paths(ctx, R, f, paths, lambda p: not p.has("default-False", "default-None"), "views count as reading unless marked", key="default")
    check_paths(ctx, R, f, paths, lambda p: not (p.has("replica", ) and not p.has("marked-reading", "marked-mutating", "mutating", "methods-end")), "views are not looked at on replicas", key="looked-at")
    check_paths(ctx, R, f, paths, lambda p: p.kind == "raise" or p.has("mutating") or not p.has("method") or p.last("methods-end") > p.last("method") or not p.has("replica"),
                "not every method of a view is looked at", key="all-methods")
    # registered, and views marked as reading can not reach a mutation
    n = 0
    for g, c in callers(ctx.P, "add_view_deriver", prefixes=SERVER):
        n += any("view_deriver" in src(a) for a in c.args)
    ctx.ob(R, f, n >= 1, "the replacement of views is not registered", key="registered")
    for v in views(ctx.P):
        mark = v.kw.get("is_mutating")
        if mark is not None and literal(mark) is False:
            reach = callees(ctx.P, v.func)
            bad = [g.qual for g in reach if g.qual in (KF + ".Transaction.set", KF + ".Transaction.delete")]
            ctx.ob(R, v.func, v.func.name.startswith(("xmlrpc", "view_", "search")) or not bad, "a view marked as only reading changes state", key="marked", where=v.where)
    # views without a method restriction must not change state
    mutators = {"modify", "delete", "create_stage", "create_user", "set_versiondata", "store_releasefile", "store_doczip", "store_toxresult", "del_entry", "del_project", "del_versiondata",
                "add_project_name", "clear_versions", "_set_passwd"}
    n = 0
    for v in views(ctx.P, SERVER):
        own, todo = set(), [v.func]
        seen = set()
        while todo:
            g = todo.pop()
            if g in seen:
                continue
            seen.add(g)
            own |= {c.func.attr for c in own_calls(g, *mutators) if isinstance(c.func, ast.Attribute)}
            todo.extend(g.nested.values())
            for x in walk_own(g.node):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and src(x.func.value) == "self" and g.cls is not None and g.cls.find(x.func.attr):
                    todo.append(g.cls.find(x.func.attr))
        if own & mutators:
            n += 1
            ctx.ob(R, v.func, v.methods is not None and v.methods <= MUTATING, "a view which changes state is registered for methods which replicas answer themselves", key="methods-%s" % v.route, where=v.where)
    ctx.count(R, n, 8, "views which change state")


def forward(ctx):
    R = ctx.rule("K07.forward", "the forwarded request is the one received, and a successful answer is only given after the primary's commit arrived")
    f = ctx.P.func("devpi_server.replica.proxy_write_to_primary")
    waits = []

    def wl(ev, st):
        if ev.name == "wait_tx_serial":
            waits.append(ev)
            return True

    def br(t, v, st):
        if t.k == "cmp" and t.a[0] in ("<", "<=") and has_attr(t, "status_code"):
            lo = has_attr(t.a[1], "status_code")     # status < x
            lim = cval(t.a[2] if lo else t.a[1]) if (t.a[2] if lo else t.a[1]).k == "c" else None
            if lo:
                if lim is None or lim < 400:
                    return "other-test"
                return "success" if v else "failure"
            if lim is None:
                return "other-test"
            if (t.a[0] == "<=" and lim <= 400) or (t.a[0] == "<" and lim <= 399):
                return ("failure" if v else "success") if lim >= 399 else "other-test"
            return "other-test"
    paths = trace_paths(ctx, f, {"req": "proxy_request_to_primary", "wait": wl, "resp": "Response"}, branch=br, default_raises=())
    ctx.ob(R, f, some(paths, "wait"), "nothing waits for the primary's commit", key="instances")
    check_paths(ctx, R, f, paths, lambda p: p.kind == "raise" or p.has("failure") or p.has("wait") and p.idx("wait") < p.idx("resp"), "a successful answer is passed on before the change arrived", key="wait")
    good = bool(waits)
    for e in waits:
        a = argn(e, 0, "serial")
        if a is None or not has_str(a, "X-DEVPI-SERIAL") or not has_call(a, "proxy_request_to_primary") or e.kwargs.get("timeout", NONE) is not NONE:
            good = False
    ctx.ob(R, f, good, "it is not the serial of the primary's answer which is waited for, without limit", key="serial")
    g = ctx.P.func("devpi_server.replica.proxy_request_to_primary")
    reqs = []

    def rq(ev, st):
        if ev.name == "request" and len(ev.args) >= 2:
            reqs.append(ev)
            return True
    paths = trace_paths(ctx, g, {"r": rq}, default_raises=(), quiet=("around",))
    rp = g.params()[1]
    good = bool(reqs)
    for e in reqs:
        m, u = e.args[0], e.args[1]
        d = argn(e, None, "data")
        hd = argn(e, None, "headers")
        if not (m.k == "attr" and m.a[1] == "method" and m.a[0] is T("p", rp)):
            good = False
        if not (has_attr(u, "primary_url") and has_param(u, rp) and has_attr(u, "path") and has_attr(u, "query")):
            good = False
        if d is None or not (has_attr(d, "body", "body_file")):
            good = False
        if hd is None or not (has_param(hd, rp)):
            good = False
        if e.kwargs.get("allow_redirects") is not FALSE:
            good = False
    ctx.ob(R, g, good, "the request sent to the primary is not the one received", key="request")
    check_paths(ctx, R, g, paths, lambda p: p.kind == "raise" or has_call(p.ret, "request"), "the primary's answer is not passed on", key="answer")
    p_ = ctx.P.func("devpi_server.replica.proxy_view_to_primary")
    paths = trace_paths(ctx, p_, {"fwd": ["proxy_write_to_primary"]}, default_raises=())
    check_paths(ctx, R, p_, paths, lambda p: p.kind == "raise" or p.has("fwd"), "a changing request is not forwarded", key="view")


def branches(ctx):
    R = ctx.rule("K07.branches", "code which looks at the role does not start a write transaction, nor records a change in a background task, on the replica side")
    n = 0
    for f in ctx.P.iter_funcs(*ALL_SERVER):
        if not any(True for _ in own_calls(f, "is_replica")):
            continue
        if f.name in ("view_deriver", "keyfs", "__init__", "is_master"):
            continue

        def br(t, v, st):
            if replica_test(t):
                return "replica" if v else PRUNE

        def serialless(ev, st):
            return ev.name in ("write_transaction", "restart_as_write_transaction") and "conn" not in attr_chain(ev.fterm)
        paths = trace_paths(ctx, f, {"write": serialless, "task": "_update_simplelinks_in_future"}, branch=br, events=("write_transaction", "restart_as_write_transaction"), default_raises=(),
                            stop=("is_replica", "import_changes", "commit"), depth=4, max_states=40,
                            raises={"write": (), "task": ()})
        if not some(paths, "replica"):
            continue
        n += 1

        def ok(p):
            i = p.idx("replica")
            return i < 0 or not any(x.rstrip("!") in ("write", "task") for x in p.trace[i:])
        check_paths(ctx, R, f, paths, ok, "a write is started on a replica", key="write")
    ctx.count(R, n, 5, "functions which look at the role")
    # the functions in which a mirror writes look at the role first
    todo = {}
    for f, c in callers(ctx.P, "write_transaction", "restart_as_write_transaction", "_update_simplelinks_in_future"):
        if f.module.name.endswith((".mirror", ".main")) and "conn" not in src(c.func) and f.name != "_update_simplelinks_in_future":
            todo[f] = c
    for f, c in sorted(todo.items(), key=lambda x: x[0].qual):
        def wr(ev, st):
            return ev.name in ("write_transaction", "restart_as_write_transaction", "_update_simplelinks_in_future")

        def looked(f, depth=0):
            paths = trace_paths(ctx, f, {"write": wr}, branch=lambda t, v, st: ("replica" if v else "other") if replica_test(t) else None,
                                default_raises=("?",), stop=("is_replica",), depth=3, follow=lambda g, ev, d: False if g.name in ("_update_simplelinks", "_update_projects") else None)
            if not some(paths, "write", "write!"):
                return True
            return all(not p.has("write") or "other" in p.trace[:p.idx("write")] for p in paths)
        ok = looked(f)
        if not ok:
            # a helper: its callers look at the role
            cs = [(g, x) for g, x in callers(ctx.P, f.name) if g is not f]
            ok = bool(cs)
            for g, x in cs:
                nm = f.name
                paths = trace_paths(ctx, g, {"write": lambda ev, st: ev.name == nm}, branch=lambda t, v, st: ("replica" if v else "other") if replica_test(t) else None,
                                    default_raises=(), stop=("is_replica", nm), follow=lambda h, ev, d: False)
                ok = ok and all(not p.has("write") or "other" in p.trace[:p.idx("write")] for p in paths)
        ctx.ob(R, f, ok, "a write is started without looking at the role", key="looked", where=where(f, c))


def roles(ctx):
    R = ctx.rule("K07.roles", "each role test of the server answers from the configured role alone")
    X = ctx.P.cls("devpi_server.main.XOM")
    for name, want in (("is_replica", "replica"), ("is_primary", "primary"), ("is_master", "primary")):
        f = X.find(name)
        if f is None:
            continue
        paths = trace_paths(ctx, f, {}, default_raises=(), self_cls=X, events=("role",), follow=lambda g, ev, d: g.name in ("is_replica", "is_primary"))

        def ok(p):
            t = p.ret
            if p.kind == "raise":
                return True
            if t is None:
                return False
            if t.k == "cmp" and t.a[0] == "==" and has_attr(t, "role"):
                return any(cstr(x) == want for x in t.a[1:])
            if t.k == "c" and isinstance(cval(t), bool):
                vals = {v == cval(t) for c, v in p.st.facts.items() if c.k == "cmp" and c.a[0] == "==" and has_attr(c, "role") and any(cstr(x) == want for x in c.a[1:])}
                return vals == {True}
            return t.k == "call" and call_name(t) == ("is_" + want)
        check_paths(ctx, R, f, paths, ok, "%s does not tell whether the role is %s" % (name, want), key=name)
    n = 0
    C = ctx.P.cls("devpi_server.config.Config")
    f = C.method("role")
    paths = trace_paths(ctx, f, {}, default_raises=(), self_cls=C, follow=lambda g, ev, d: False)
    check_paths(ctx, R, f, paths, lambda p: p.kind == "raise" or has_str(p.ret, "role") or cstr(p.ret) == "primary" and any(has_str(t, "master") and v for t, v in p.st.facts.items()),
                "the role is not the one of the node", key="role")


def check(ctx):
    store(ctx)
    tween(ctx)
    deriver(ctx)
    forward(ctx)
    branches(ctx)
    roles(ctx)
    ctx.assumptions.append("code writes to the key store only through its transactions (no access to the storage's database connection elsewhere)")


V, M, X, K, RP = ("server/devpi_server/%s.py" % n for n in ("views", "mirror", "main", "keyfs", "replica"))
SELFTEST = [
    (K, "        if write and self._readonly:\n            raise self.ReadOnly()\n", ""),
    (K, "        if self._readonly:\n            raise self.ReadOnly()\n        tx = self.tx", "        tx = self.tx"),
    (X, "            readonly=self.is_replica(),\n", ""),
    (V, "write = is_mutating_http_method(request.method) and not is_replica", "write = is_mutating_http_method(request.method) or not is_replica"),
    (V, '("PUT", "POST", "PATCH", "DELETE", "PUSH")', '("PUT", "POST", "DELETE", "PUSH")'),
    (X, "info.options.get('is_mutating', True)", "info.options.get('is_mutating', False)"),
    (X, "                    if is_mutating_http_method(request_method):\n", "                    if not is_mutating_http_method(request_method):\n"),
    (RP, "    if r.status_code < 400:\n        commit_serial", "    if r.status_code < 300:\n        commit_serial"),
    (RP, "        xom.keyfs.wait_tx_serial(commit_serial)\n    headers", "        xom.keyfs.wait_tx_serial(commit_serial, timeout=5)\n    headers"),
    (RP, "                                allow_redirects=False,\n", ""),
    (M, "            if not self.xom.is_replica():\n                # we process", "            if True:\n                # we process"),
    (M, "            # trigger an initial-load event on primary\n            if not self.xom.is_replica():", "            # trigger an initial-load event on primary\n            if True:"),
    (X, 'return self.config.role == "replica"', 'return self.config.primary_url is not None'),
    (X, "        return self.is_primary()\n", "        return not self.is_replica()\n"),
    (X, 'xom.keyfs.get_current_serial() == -1 and not xom.is_replica()', 'xom.keyfs.get_current_serial() == -1 or not xom.is_replica()'),
    (V, '@view_config(route_name="/{user}/{index}", request_method=("POST", "PUSH"))', '@view_config(route_name="/{user}/{index}")'),
]
